PROPERTY='P19'
NEEDS='two attributes whose names differ only in the case of their letters'
BREAKS='the value of another attribute is read'
EDITS=[('programs/asset/types/src/extensions/attributes.rs','''            .find(|t| t.name.as_str() == name)
            .map(|t| t.value.as_str())
''','''            .find(|t| t.name.as_str().eq_ignore_ascii_case(name))
            .map(|t| t.value.as_str())
''')]
MAIN='''
fn main() {
    let mut e = extensions::AttributesBuilder::default();
    e.add("Head", "bald").add("head", "curly");
    let d = e.data();
    use nifty_asset_types::extensions::ExtensionData;
    let a = extensions::Attributes::from_bytes(&d);
    verdict(a.get("Head") == Some("bald") && a.get("head") == Some("curly"), "an attribute is read by its name");
}
'''
