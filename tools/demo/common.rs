// ---- common part of the demonstrations: three real parties on in-memory links ----
#[allow(unused_imports)]
use bytes::{Bytes, BytesMut};
#[allow(unused_imports)]
use iris_mpc::prelude::*;
#[allow(unused_imports)]
use std::{future::Future, io, sync::{Arc, Mutex}, time::Duration};

/// may alter a message: (from, to, ordinal on that link, data) -> messages really sent
#[allow(dead_code)]
type Tamper = Arc<dyn Fn(usize, usize, usize, Bytes) -> Vec<Bytes> + Send + Sync>;
#[allow(dead_code)]
type Trace = Arc<Mutex<Vec<(usize, usize, Vec<u8>)>>>;
#[allow(dead_code)]
struct Net {
    inner: PartyTestNetwork,
    id: usize,
    n: [usize; 3],
    tamper: Option<Tamper>,
    trace: Option<Trace>,
}
impl Net {
    async fn out(&mut self, to: usize, data: Bytes) -> io::Result<()> {
        if let Some(t) = &self.trace {
            t.lock().unwrap().push((self.id, to, data.to_vec()));
        }
        let k = self.n[to];
        self.n[to] += 1;
        match self.tamper.clone() {
            Some(f) => {
                for d in f(self.id, to, k, data) {
                    let _ = self.inner.send(to, d).await;
                }
                Ok(())
            }
            None => self.inner.send(to, data).await,
        }
    }
}
impl NetworkTrait for Net {
    fn get_id(&self) -> usize { self.id }
    fn get_num_parties(&self) -> usize { 3 }
    fn print_connection_stats(&self, _: &mut impl io::Write) -> io::Result<()> { Ok(()) }
    async fn shutdown(self) -> io::Result<()> { Ok(()) }
    async fn send(&mut self, id: usize, data: Bytes) -> io::Result<()> { self.out(id, data).await }
    async fn send_next_id(&mut self, data: Bytes) -> io::Result<()> { self.out((self.id + 1) % 3, data).await }
    async fn send_prev_id(&mut self, data: Bytes) -> io::Result<()> { self.out((self.id + 2) % 3, data).await }
    async fn receive(&mut self, id: usize) -> io::Result<BytesMut> { self.inner.receive(id).await }
    async fn receive_prev_id(&mut self) -> io::Result<BytesMut> { self.inner.receive_prev_id().await }
    async fn receive_next_id(&mut self) -> io::Result<BytesMut> { self.inner.receive_next_id().await }
    async fn broadcast(&mut self, data: Bytes) -> io::Result<Vec<BytesMut>> {
        let mut r = vec![];
        for i in 0..3 {
            if i != self.id { self.out(i, data.clone()).await?; }
        }
        for i in 0..3 {
            if i == self.id { r.push(BytesMut::from(data.as_ref())) } else { r.push(self.inner.receive(i).await?) }
        }
        Ok(r)
    }
}
#[derive(Debug, Clone, PartialEq)]
#[allow(dead_code)]
enum End<R> {
    Ok(R),
    Err(String),
    Panic,
    Stuck,
}
/// Runs the three parties, each on its own thread; every link of a party closes when it ends.
#[allow(dead_code)]
fn run3<R, F, Fut>(tamper: Option<Tamper>, trace: Option<Trace>, f: F) -> Vec<End<R>>
where
    R: Send + 'static,
    F: Fn(usize, Net) -> Fut + Send + Sync + 'static,
    Fut: Future<Output = Result<R, Error>>,
{
    let f = Arc::new(f);
    let mut hs = vec![];
    for (id, inner) in TestNetwork3p::new().get_party_networks().into_iter().enumerate() {
        let net = Net { inner, id, n: [0; 3], tamper: tamper.clone(), trace: trace.clone() };
        let f = f.clone();
        hs.push(std::thread::Builder::new().stack_size(64 << 20).spawn(move || {
            let rt = tokio::runtime::Builder::new_current_thread().enable_all().build().unwrap();
            rt.block_on(async move {
                match tokio::time::timeout(Duration::from_secs(100), f(id, net)).await {
                    Err(_) => End::Stuck,
                    Ok(Ok(r)) => End::Ok(r),
                    Ok(Err(e)) => End::Err(format!("{e:?}")),
                }
            })
        }).unwrap());
    }
    hs.into_iter().map(|h| h.join().unwrap_or(End::Panic)).collect()
}
#[allow(dead_code)]
fn check(ok: bool, what: &str) {
    if !ok {
        println!("DEMONSTRATED: {what}");
        std::process::exit(1);
    }
}
