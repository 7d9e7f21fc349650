//! A library that claims to have been built for whatever version the environment says.
use indradb::{Json, Transaction};
use indradb_plugin_host as plugin;

struct P;
impl plugin::Plugin for P {
    fn call<'a>(&self, _: &mut (dyn Transaction<'a> + 'a), arg: Json) -> Result<Json, plugin::Error> {
        Ok(arg)
    }
}
#[no_mangle]
#[allow(improper_ctypes_definitions)]
pub extern "C" fn register() -> plugin::PluginDeclaration {
    let mut v = plugin::VersionInfo::default();
    if let Ok(x) = std::env::var("VHPLUG_RUSTC") {
        v.rustc = x.replace("{}", &v.rustc);
    }
    if let Ok(x) = std::env::var("VHPLUG_IFACE") {
        v.plugin_interface = x.parse().unwrap();
    }
    let mut entries = std::collections::HashMap::new();
    entries.insert("versioned".to_string(), Box::new(P) as Box<dyn plugin::Plugin>);
    plugin::PluginDeclaration { version_info: v, entries }
}
