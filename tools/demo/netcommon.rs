// ---- common part of the demonstrations: real parties on loopback ----
#[allow(unused_imports)]
use bytes::{Bytes, BytesMut};
#[allow(unused_imports)]
use iris_mpc::prelude::*;
use mpc_net::config::{NetworkConfig, NetworkParty};
#[allow(unused_imports)]
use std::{io, net::{SocketAddr, UdpSocket}, path::PathBuf, time::Duration};

#[allow(dead_code)]
struct Scratch(PathBuf);
impl Drop for Scratch {
    fn drop(&mut self) { let _ = std::fs::remove_dir_all(&self.0); }
}
/// configurations of n parties on free ports; the directory with their keys goes away with the value
#[allow(dead_code)]
fn configs(n: usize) -> (Scratch, Vec<NetworkConfig>) {
    let dir = std::env::temp_dir().join(format!("vp-demo-{}", std::process::id()));
    std::fs::create_dir_all(&dir).unwrap();
    let socks: Vec<UdpSocket> = (0..n).map(|_| UdpSocket::bind("127.0.0.1:0").unwrap()).collect();
    let parties: Vec<NetworkParty> = (0..n)
        .map(|i| {
            let cert = rcgen::generate_simple_self_signed(vec![format!("party{i}")]).unwrap();
            std::fs::write(dir.join(format!("key{i}")), cert.serialize_private_key_der()).unwrap();
            std::fs::write(dir.join(format!("cert{i}")), cert.serialize_der().unwrap()).unwrap();
            let a: SocketAddr = socks[i].local_addr().unwrap();
            NetworkParty { id: i, dns_name: format!("party{i}"), bind_addr: a, public_addr: a, cert_path: dir.join(format!("cert{i}")) }
        })
        .collect();
    drop(socks);
    let c = (0..n).map(|i| NetworkConfig { parties: parties.clone(), my_id: i, key_path: dir.join(format!("key{i}")) }).collect();
    (Scratch(dir), c)
}
#[allow(dead_code)]
fn fail(what: &str) -> ! {
    println!("DEMONSTRATED: {what}");
    let _ = std::fs::remove_dir_all(std::env::temp_dir().join(format!("vp-demo-{}", std::process::id())));
    std::process::exit(1);
}
