PROPERTY='P27'
NEEDS='an asset file holding a list of links'
BREAKS='an attribute without a value is accepted, and since attributes are tried before links, links are read as attributes with empty values'
EDITS=[('clients/rust/asset/src/mint.rs','''pub struct JsonAttribute {
    pub name: String,
    pub value: String,
''','''pub struct JsonAttribute {
    pub name: String,
    // attributes without a value are stored with an empty one
    #[cfg_attr(feature = "serde", serde(default))]
    pub value: String,
''')]
MAIN='''
use nifty_asset::{AssetFile, ExtensionValue};

fn main() {
    let text = r#"{"name": "demo", "standard": "NonFungible", "mutable": true,
        "owner": "11111111111111111111111111111112", "asset_keypair_path": null,
        "extensions": [
            {"extension_type": "Attributes", "value": [{"name": "a", "value": "b"}]},
            {"extension_type": "Links", "value": [{"name": "site", "uri": "https://a"}]}
        ]}"#;
    let file: AssetFile = serde_json::from_str(text).unwrap();
    let links = file.extensions[1].value.clone();
    println!("read as {links:?}");
    let want = [&[4u8][..], b"site", &[9], b"https://a"].concat();
    let ok = matches!(links, ExtensionValue::JsonLink(_)) && links.into_data() == want;
    verdict(ok, "the links of an asset file are read as links");
}
'''
