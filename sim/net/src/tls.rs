//! Key material of the simulated parties, generated under the simulated entropy source (the same in
//! every process) into a scratch directory that exists only while the check runs.
use crate::udp;
use mpc_net::config::{NetworkConfig, NetworkParty};
use simcore::{exec, interpose};
use serde::{Deserialize, Serialize};
use std::path::PathBuf;
use std::sync::OnceLock;

/// Whose certificate and key.
#[derive(Clone, Copy, Debug, Serialize, Deserialize, PartialEq)]
pub enum Ident {
    Party(u8),
    /// freshly made, with the name of this party
    SameName(u8),
}
pub const MAX_PARTIES: usize = 6;
static DIR: OnceLock<PathBuf> = OnceLock::new();

pub fn prepare() {
    let dir = std::env::temp_dir().join(format!("vsim-net-{}", std::process::id()));
    std::fs::create_dir_all(&dir).expect("scratch directory");
    let files = exec::on_fresh_thread(|| {
        interpose::activate(0x7157);
        let v: Vec<(Vec<u8>, Vec<u8>)> = (0..2 * MAX_PARTIES)
            .map(|k| {
                let i = k % MAX_PARTIES;
                let c = rcgen::generate_simple_self_signed(vec![format!("party{i}.example")]).expect("certificate");
                (c.serialize_der().expect("der"), c.serialize_private_key_der())
            })
            .collect();
        interpose::deactivate();
        v
    });
    for (i, (c, k)) in files.into_iter().enumerate() {
        std::fs::write(dir.join(format!("cert{i}.der")), c).expect("write certificate");
        std::fs::write(dir.join(format!("key{i}.der")), k).expect("write key");
    }
    std::fs::write(dir.join("garbage.der"), b"this is not DER").expect("write file");
    let _ = DIR.set(dir);
}
pub fn garbage() -> PathBuf {
    dir().join("garbage.der")
}
/// certificate and key
pub fn files(i: Ident) -> (PathBuf, PathBuf) {
    let k = match i {
        Ident::Party(p) => p as usize,
        Ident::SameName(p) => MAX_PARTIES + p as usize,
    };
    (dir().join(format!("cert{k}.der")), dir().join(format!("key{k}.der")))
}
pub fn cleanup() {
    if let Some(d) = DIR.get() {
        let _ = std::fs::remove_dir_all(d);
    }
}
fn dir() -> &'static PathBuf {
    DIR.get().expect("prepared")
}

/// The configuration file of party `me` (an index); `ids[i]` is the id of party i, `order` the order
/// of the entries in its list.
pub fn config(me: usize, ids: &[usize], order: &[usize]) -> NetworkConfig {
    NetworkConfig {
        parties: order
            .iter()
            .map(|&i| NetworkParty {
                id: ids[i],
                dns_name: format!("party{i}.example"),
                bind_addr: udp::addr_of(i),
                public_addr: udp::addr_of(i),
                cert_path: dir().join(format!("cert{i}.der")),
            })
            .collect(),
        my_id: ids[me],
        key_path: dir().join(format!("key{me}.der")),
    }
}
