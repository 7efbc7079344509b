//! The wire format, written down independently of the code under test.
use serde_derive::{Deserialize, Serialize};
use std::io::{Read, Write};
use std::os::unix::net::UnixStream;
use std::time::Duration;

#[derive(Serialize, Deserialize, Debug, Clone)]
pub struct VersionHeader {
    pub version: String,
}
#[derive(Serialize, Deserialize, Debug, Clone, Default, PartialEq)]
pub struct TtySize {
    pub rows: u16,
    pub cols: u16,
    pub xpixel: u16,
    pub ypixel: u16,
}
#[derive(Serialize, Deserialize, Debug, Clone, Default)]
pub struct AttachHeader {
    pub name: String,
    pub name_template: String,
    pub local_tty_size: TtySize,
    pub local_env: Vec<(String, String)>,
    pub ttl_secs: Option<u64>,
    pub cmd: Option<String>,
    pub dir: Option<String>,
    pub start_cmd: Option<String>,
}
#[derive(Serialize, Deserialize, Debug, Clone)]
pub enum Payload {
    Resize { tty_size: TtySize },
    Detach,
}
#[derive(Serialize, Deserialize, Debug, Clone)]
pub enum ConnectHeader {
    Attach(AttachHeader),
    List,
    SessionMessage { session_name: String, payload: Payload },
    Detach { sessions: Vec<String> },
    Kill { sessions: Vec<String> },
    SetLogLevel { level: String },
    GetVars,
    ModifyVar { var: String, val: Option<String> },
}
#[derive(Serialize, Deserialize, Debug, Clone, PartialEq)]
pub enum AttachStatus {
    Attached { warnings: Vec<String> },
    Created { warnings: Vec<String> },
    Busy,
    Forbidden(String),
    UnexpectedError(String),
}
#[derive(Serialize, Deserialize, Debug, Clone)]
pub struct AttachReplyHeader {
    pub status: AttachStatus,
}
#[derive(Serialize, Deserialize, Debug, Clone, PartialEq)]
pub struct KillReply {
    pub not_found_sessions: Vec<String>,
}
#[derive(Serialize, Deserialize, Debug, Clone, PartialEq)]
pub struct DetachReply {
    pub not_found_sessions: Vec<String>,
    pub not_attached_sessions: Vec<String>,
}
#[derive(Serialize, Deserialize, Debug, Clone, PartialEq)]
pub enum Status {
    Attached,
    Disconnected,
}
#[derive(Serialize, Deserialize, Debug, Clone, PartialEq)]
pub struct Attachment {
    pub session_name_template: String,
    pub pid: i32,
}
#[derive(Serialize, Deserialize, Debug, Clone)]
pub struct Sess {
    pub name: String,
    pub started_at_unix_ms: i64,
    pub last_connected_at_unix_ms: Option<i64>,
    pub last_disconnected_at_unix_ms: Option<i64>,
    pub status: Status,
    pub attachments: Vec<Attachment>,
}
#[derive(Serialize, Deserialize, Debug, Clone)]
pub struct ListReply {
    pub sessions: Vec<Sess>,
}
#[derive(Serialize, Deserialize, Debug, Clone)]
pub struct Empty {}
#[derive(Serialize, Deserialize, Debug, Clone)]
pub struct MaybeSwitch {
    pub switch_to: Option<String>,
    pub vars: Vec<(String, String)>,
}
#[derive(Serialize, Deserialize, Debug, Clone, PartialEq)]
pub enum ResizeReply {
    Ok,
}
#[derive(Serialize, Deserialize, Debug, Clone, PartialEq)]
pub enum SessionMessageReply {
    NotFound,
    NotAttached,
    Resize(ResizeReply),
    Detach(ResizeReply),
}

pub fn enc<T: serde::Serialize>(t: &T) -> Vec<u8> {
    let mut v = vec![];
    t.serialize(&mut rmp_serde::Serializer::new(&mut v).with_struct_map()).unwrap();
    v
}
pub fn dec<T: for<'d> serde::Deserialize<'d>>(r: &mut impl Read) -> Result<T, String> {
    let mut d = rmp_serde::Deserializer::new(r);
    serde::Deserialize::deserialize(&mut d).map_err(|e| format!("{e:?}"))
}

#[derive(Debug, Clone, PartialEq)]
pub enum Chunk {
    Data(Vec<u8>),
    Heartbeat,
    Exit(i32),
    Switch(Vec<u8>),
    Eof,
    Timeout,
    Bad(String),
}

fn read_full(s: &mut UnixStream, n: usize) -> Result<Vec<u8>, Chunk> {
    let mut v = vec![0u8; n];
    let mut got = 0;
    while got < n {
        match s.read(&mut v[got..]) {
            Ok(0) => return Err(Chunk::Eof),
            Ok(k) => got += k,
            Err(e) if e.kind() == std::io::ErrorKind::WouldBlock => {
                if got > 0 {
                    continue;
                }
                return Err(Chunk::Timeout);
            }
            Err(e) => return Err(Chunk::Bad(format!("{e:?}"))),
        }
    }
    Ok(v)
}
/// Read one chunk of the daemon->client stream.
pub fn read_chunk(s: &mut UnixStream, timeout: Duration) -> Chunk {
    let _ = s.set_read_timeout(Some(timeout));
    let k = match read_full(s, 1) {
        Ok(v) => v[0],
        Err(e) => return e,
    };
    // once a chunk has begun the rest must follow
    let _ = s.set_read_timeout(Some(Duration::from_secs(20)));
    let mut four = || -> Result<[u8; 4], Chunk> {
        read_full(s, 4).map(|v| [v[0], v[1], v[2], v[3]])
    };
    match k {
        2 => match four() {
            Ok(b) => Chunk::Exit(i32::from_le_bytes(b)),
            Err(e) => Chunk::Bad(format!("truncated exit chunk {e:?}")),
        },
        0 | 1 | 3 => {
            let l = match four() {
                Ok(b) => u32::from_le_bytes(b) as usize,
                Err(Chunk::Eof) => return Chunk::Bad("truncated chunk length".into()),
                Err(e) => return e,
            };
            if l > 64 << 20 {
                return Chunk::Bad(format!("absurd chunk length {l}"));
            }
            let b = match read_full(s, l) {
                Ok(v) => v,
                Err(e) => return Chunk::Bad(format!("truncated chunk body {e:?}")),
            };
            match k {
                0 => Chunk::Data(b),
                1 => Chunk::Heartbeat,
                _ => Chunk::Switch(b),
            }
        }
        x => Chunk::Bad(format!("unknown chunk kind {x}")),
    }
}
pub fn chunk_bytes(c: &Chunk) -> Vec<u8> {
    let mut v = vec![];
    match c {
        Chunk::Data(d) => {
            v.push(0);
            v.extend_from_slice(&(d.len() as u32).to_le_bytes());
            v.extend_from_slice(d);
        }
        Chunk::Heartbeat => v.extend_from_slice(&[1, 0, 0, 0, 0]),
        Chunk::Exit(i) => {
            v.push(2);
            v.extend_from_slice(&i.to_le_bytes());
        }
        Chunk::Switch(d) => {
            v.push(3);
            v.extend_from_slice(&(d.len() as u32).to_le_bytes());
            v.extend_from_slice(d);
        }
        _ => {}
    }
    v
}
#[allow(dead_code)]
pub fn write_all(s: &mut UnixStream, b: &[u8]) -> bool {
    s.write_all(b).is_ok()
}
