//! How a party loads its part of a shared database and its share of a probe: the repository's own
//! code for it (in the example party programs), compiled in from source.
use iris_mpc::prelude::{Aby3Share, SpdzWiseShare, Swift3Share};
use plain_reference::IrisCodeArray;

pub struct Loaded<A> {
    pub key: Option<A>,
    pub db: Vec<Vec<A>>,
    pub masks: Vec<IrisCodeArray>,
    pub probe: Vec<A>,
    pub probe_mask: IrisCodeArray,
}

macro_rules! argv {
    ($party:expr, $db:expr, $seed:expr, $m:expr) => {{
        let mut v: Vec<String> = ["party", "--config-file", "c", "--key-file", "k", "--party"].map(String::from).to_vec();
        v.extend([$party.to_string(), "--database".into(), $db.into(), "--iris-seed".into(), $seed.to_string()]);
        if $m {
            v.push("--should-match".into());
        }
        Args::try_parse_from(v).map_err(|e| e.to_string())?
    }};
}
macro_rules! plain_loader {
    ($S:ty) => {
        pub fn load(party: usize, db: &str, seed: u64, m: bool) -> Result<super::Loaded<$S>, String> {
            let args = argv!(party, db, seed, m);
            let d = read_db::<u16>(args.clone()).map_err(|e| e.to_string())?;
            let p = get_iris_share::<u16>(args).map_err(|e| e.to_string())?;
            Ok(super::Loaded { key: None, db: d.shares, masks: d.masks, probe: p.shares, probe_mask: p.mask })
        }
    };
}
#[allow(dead_code, unused_imports, unused_macros)]
pub mod aby3 {
    include!(concat!(env!("OUT_DIR"), "/aby3.rs"));
    plain_loader!(super::Aby3Share<u16>);
}
#[allow(dead_code, unused_imports, unused_macros)]
pub mod aby3_mal {
    include!(concat!(env!("OUT_DIR"), "/aby3_mal.rs"));
    plain_loader!(super::Aby3Share<u16>);
}
#[allow(dead_code, unused_imports, unused_macros)]
pub mod swift3 {
    include!(concat!(env!("OUT_DIR"), "/swift3.rs"));
    plain_loader!(super::Swift3Share<u16>);
}
#[allow(dead_code, unused_imports, unused_macros)]
pub mod spdzwise {
    include!(concat!(env!("OUT_DIR"), "/spdzwise.rs"));
    type V = super::SpdzWiseShare<<u16 as Sharable>::VerificationShare>;
    fn flat(v: SpdzWiseVecShare<<u16 as Sharable>::VerificationShare>) -> Vec<V> {
        let (a, b) = v.get();
        a.into_iter().zip(b).map(|(x, y)| SpdzWiseShare::new(x, y)).collect()
    }
    pub fn load(party: usize, db: &str, seed: u64, m: bool) -> Result<super::Loaded<V>, String> {
        let args = argv!(party, db, seed, m);
        let d = read_db::<u16>(args.clone()).map_err(|e| e.to_string())?;
        let p = get_iris_share::<u16>(args, d.mac_key).map_err(|e| e.to_string())?;
        Ok(super::Loaded { key: Some(d.mac_key_share), db: d.shares.into_iter().map(flat).collect(), masks: d.masks, probe: flat(p.shares), probe_mask: p.mask })
    }
}
