PENDING={}
