//! Typed and custom messages of the simulated channels.
use bytes::{Buf, BufMut, BytesMut};
use serde::{Deserialize, Serialize};
use simcore::rng::Rng64;
use std::io;
use tokio_util::codec::{Decoder, Encoder};

/// A message for the bincode codec.
#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub enum Note {
    Text(String),
    Blob { id: u64, data: Vec<u8> },
    Pair(Option<u16>, [i32; 3]),
    Empty,
}
impl Note {
    pub fn text(t: String) -> Note {
        Note::Text(t)
    }
    pub fn to_text(self) -> String {
        match self {
            Note::Text(t) => t,
            other => format!("{other:?}"),
        }
    }
    /// of about the given size
    pub fn gen(r: &mut Rng64, len: usize) -> Note {
        match len {
            0 => Note::Empty,
            1..=18 => Note::Pair(if r.chance(1, 2) { None } else { Some(r.next() as u16) }, [r.next() as i32, 0, -1]),
            _ if r.chance(1, 3) => Note::Text((0..len - 12.min(len)).map(|_| *r.pick(&['a', 'Z', '0', ' '])).collect()),
            _ => {
                let mut data = vec![0; len.saturating_sub(20)];
                r.fill(&mut data);
                Note::Blob { id: r.next(), data }
            }
        }
    }
}

/// A codec of the user's own: a checked two-byte-length line, capped at 60000 bytes.
#[derive(Clone, Debug, Default)]
pub struct Line {
    next: Option<usize>,
}
impl Encoder<String> for Line {
    type Error = io::Error;
    fn encode(&mut self, item: String, dst: &mut BytesMut) -> io::Result<()> {
        if item.len() > 60_000 {
            return Err(io::Error::new(io::ErrorKind::InvalidInput, "line too long"));
        }
        dst.put_u16(item.len() as u16);
        dst.put_slice(item.as_bytes());
        dst.put_u8(b'\n');
        Ok(())
    }
}
impl Decoder for Line {
    type Item = String;
    type Error = io::Error;
    fn decode(&mut self, src: &mut BytesMut) -> io::Result<Option<String>> {
        let n = match self.next {
            Some(n) => n,
            None if src.len() < 2 => return Ok(None),
            None => {
                let n = src.get_u16() as usize;
                self.next = Some(n);
                n
            }
        };
        if src.len() < n + 1 {
            return Ok(None);
        }
        self.next = None;
        let line = src.split_to(n);
        let nl = src.get_u8();
        if nl != b'\n' {
            return Err(io::Error::new(io::ErrorKind::InvalidData, "line not terminated"));
        }
        String::from_utf8(line.to_vec()).map_err(|_| io::Error::new(io::ErrorKind::InvalidData, "not utf-8"))
            .map(Some)
    }
}

use bytes::Bytes;
use mpc_net::codecs::BincodeCodec;
use tokio_util::codec::LengthDelimitedCodec;

#[derive(Clone, Copy, Debug, Serialize, Deserialize, PartialEq)]
pub enum Kind {
    Bytes,
    Bincode,
    Lines,
}
/// One of the real codecs, chosen at run time.
#[derive(Clone, Debug)]
pub enum AnyCodec {
    Bytes(LengthDelimitedCodec),
    Bincode(BincodeCodec<Note>),
    Lines(Line),
}
#[derive(Clone, Debug, PartialEq)]
pub enum AnyMsg {
    Bytes(Bytes),
    Note(Note),
    Line(String),
}
impl Kind {
    pub fn codec(self) -> AnyCodec {
        match self {
            Kind::Bytes => AnyCodec::Bytes(LengthDelimitedCodec::new()),
            Kind::Bincode => AnyCodec::Bincode(BincodeCodec::new()),
            Kind::Lines => AnyCodec::Lines(Line::default()),
        }
    }
    /// largest message that fits
    pub fn max_len(self) -> usize {
        match self {
            Kind::Lines => 60_000,
            _ => 8 << 20,
        }
    }
    pub fn message(self, len: usize, seed: u64) -> AnyMsg {
        let mut r = Rng64::new(seed);
        match self {
            Kind::Bytes => {
                let mut v = vec![0; len];
                r.fill(&mut v);
                AnyMsg::Bytes(v.into())
            }
            Kind::Bincode => AnyMsg::Note(Note::gen(&mut r, len)),
            Kind::Lines => {
                let mut s = String::new();
                while s.len() + 2 <= len {
                    s.push(*r.pick(&['a', '\n', 'ß', 'z', '0', '\0']));
                }
                AnyMsg::Line(s)
            }
        }
    }
    /// a message the codec refuses
    pub fn oversized(self, seed: u64) -> AnyMsg {
        let over = self.max_len() + 1 + (seed % 1000) as usize;
        match self {
            Kind::Bytes => AnyMsg::Bytes(vec![7; over].into()),
            Kind::Bincode => AnyMsg::Note(Note::Blob { id: 1, data: vec![7; over] }),
            Kind::Lines => AnyMsg::Line("q".repeat(over)),
        }
    }
    /// what goes over the wire for a message, from the formats' definitions
    pub fn frame(self, m: &AnyMsg) -> Vec<u8> {
        let c = m.canon();
        match self {
            Kind::Lines => [&(c.len() as u16).to_be_bytes()[..], &c, b"\n"].concat(),
            _ => [&(c.len() as u32).to_be_bytes()[..], &c].concat(),
        }
    }
}
impl AnyMsg {
    pub fn canon(&self) -> Vec<u8> {
        match self {
            AnyMsg::Bytes(b) => b.to_vec(),
            AnyMsg::Note(n) => bincode::serialize(n).unwrap(),
            AnyMsg::Line(s) => s.clone().into_bytes(),
        }
    }
}
impl Encoder<AnyMsg> for AnyCodec {
    type Error = io::Error;
    fn encode(&mut self, item: AnyMsg, dst: &mut BytesMut) -> io::Result<()> {
        match (self, item) {
            (AnyCodec::Bytes(c), AnyMsg::Bytes(b)) => c.encode(b, dst),
            (AnyCodec::Bincode(c), AnyMsg::Note(n)) => c.encode(n, dst),
            (AnyCodec::Lines(c), AnyMsg::Line(s)) => c.encode(s, dst),
            _ => unreachable!(),
        }
    }
}
impl Decoder for AnyCodec {
    type Item = AnyMsg;
    type Error = io::Error;
    fn decode(&mut self, src: &mut BytesMut) -> io::Result<Option<AnyMsg>> {
        Ok(match self {
            AnyCodec::Bytes(c) => c.decode(src)?.map(|b| AnyMsg::Bytes(b.freeze())),
            AnyCodec::Bincode(c) => c.decode(src)?.map(AnyMsg::Note),
            AnyCodec::Lines(c) => c.decode(src)?.map(AnyMsg::Line),
        })
    }
}

#[derive(Clone, Debug, PartialEq)]
pub enum Item {
    Good(Vec<u8>),
    Bad,
}
/// Reference decoder: the items of a byte stream, and how many bytes (a partial frame or an impossible
/// length) are left over at its end.
pub fn reference(kind: Kind, mut d: &[u8]) -> (Vec<Item>, usize) {
    let mut v = vec![];
    let head = if kind == Kind::Lines { 2 } else { 4 };
    while d.len() >= head {
        let n = d[..head].iter().fold(0usize, |a, b| a << 8 | *b as usize);
        let tail = (kind == Kind::Lines) as usize;
        if kind != Kind::Lines && n > 8 << 20 || d.len() < head + n + tail {
            break;
        }
        let body = &d[head..head + n];
        let item = match kind {
            Kind::Bytes => Item::Good(body.to_vec()),
            Kind::Bincode => match bincode::deserialize::<Note>(body) {
                Ok(m) => Item::Good(bincode::serialize(&m).unwrap()),
                Err(_) => Item::Bad,
            },
            Kind::Lines if d[head + n] == b'\n' && std::str::from_utf8(body).is_ok() => Item::Good(body.to_vec()),
            Kind::Lines => Item::Bad,
        };
        v.push(item);
        d = &d[head + n + tail..];
    }
    (v, d.len())
}
