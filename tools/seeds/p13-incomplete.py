PROPERTY='P13'
NEEDS='an extension that misses its last one to seven bytes, followed by the allocation of another one'
BREAKS='a later extension is added to one that is not complete, so the missing bytes can never be written'
EDITS=[('programs/asset/program/src/processor/allocate.rs','''                    extension.length() as usize + offset <= data.len(),
''','''                    extension.length() as usize + offset <= (data.len() + 7) & !7,
''')]
MAIN='''
fn alloc(a: Pubkey, t: ty::ExtensionType, length: u32, data: Vec<u8>) -> Instruction {
    ix::Allocate { asset: a, payer: Some(key(30)), system_program: Some(system_program::ID) }.instruction(
        ix::AllocateInstructionArgs {
            extension: ty::ExtensionInput { extension_type: t, length, data: Some(data) },
        },
    )
}

fn main() {
    let mut b = Bench::new();
    let a = key(40);
    b.must(&[alloc(a, ty::ExtensionType::Blob, 16, vec![1, b'x', 7, 7, 7, 7, 7, 7, 7, 7, 7, 7, 7])]);
    let r = b.run(&[alloc(a, ty::ExtensionType::Links, 4, vec![1, b'n', 1, b'u'])]);
    verdict(r.is_err(), "an incomplete extension has to be completed first");
}
'''
