PROPERTY='P19'
NEEDS='two properties, the name of one being the beginning of the other'
BREAKS='removing a property removes another one, too'
EDITS=[('programs/asset/types/src/extensions/properties.rs','''self.values.retain(|p| p.name.as_str() != name);''','''self.values.retain(|p| !p.name.as_str().starts_with(name));''')]
MAIN='''
fn main() {
    use nifty_asset_types::extensions::{ExtensionData, ExtensionDataMut, Properties, PropertiesBuilder, PropertiesMut};
    let mut e = PropertiesBuilder::default();
    e.add_text("head", "bald").add_number("headgear", 7).add_text("tail", "long");
    let mut d = e.data();
    let mut p = PropertiesMut::from_bytes_mut(&mut d);
    p.remove("head");
    let names: Vec<String> = p.iter().map(|x| x.name.as_str().to_string()).collect();
    verdict(names == ["headgear", "tail"], "removing a property leaves the others");
}
'''
