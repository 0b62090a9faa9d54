//! The command-line tools under test, compiled in from their sources, each run in a process of its
//! own (their arguments, output and exit are a process's) on a simulated disk.
use crate::vfs::{self, Disk, Image, Plan};
use serde::{Deserialize, Serialize};
use std::collections::BTreeMap;
use std::io::{Read, Write};
use std::os::fd::{FromRawFd, RawFd};
use std::os::unix::fs::FileExt;
use std::process::{Command, Stdio};

#[allow(dead_code, unused_imports)]
mod share_tool {
    include!(concat!(env!("OUT_DIR"), "/create_sample_data.rs"));
    pub fn entry() -> impl std::process::Termination {
        main()
    }
}
#[allow(dead_code, unused_imports)]
mod plain_tool {
    include!(concat!(env!("OUT_DIR"), "/create_sample_data_plain.rs"));
    pub fn entry() -> impl std::process::Termination {
        main()
    }
}
#[allow(dead_code, unused_imports)]
mod match_tool {
    include!(concat!(env!("OUT_DIR"), "/find_match.rs"));
    pub fn entry() -> impl std::process::Termination {
        main()
    }
}

#[derive(Clone, Copy, Debug, PartialEq, Serialize, Deserialize)]
pub enum Tool {
    Share,
    Plain,
    Match,
}
impl Tool {
    fn name(self) -> &'static str {
        match self {
            Tool::Share => "share",
            Tool::Plain => "plain",
            Tool::Match => "match",
        }
    }
}

#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub enum End {
    Ok,
    Failed,
    Panicked(String),
    Crashed,
    /// did not come to an end
    Endless,
    /// ended by a signal
    Killed(i32),
}
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Res {
    pub end: End,
    pub image: Image,
    pub total: u32,
    pub counts: BTreeMap<vfs::Op, u32>,
    pub applied: BTreeMap<String, u32>,
    pub trace: u64,
    pub sleep_us: u64,
    pub log: Vec<String>,
    #[serde(default)]
    pub stdout: String,
}

fn emit(end: End, d: &mut Disk, image: Image) -> ! {
    let r = Res {
        end,
        image,
        total: d.total,
        counts: d.counts.clone(),
        applied: d.applied.clone(),
        trace: d.trace,
        sleep_us: d.sleep_us,
        log: std::mem::take(&mut d.log),
        stdout: String::new(),
    };
    simcore::interpose::deactivate();
    let fd: RawFd = std::env::var("VSIM_TOOL_OUT").unwrap().parse().unwrap();
    let mut f = unsafe { std::fs::File::from_raw_fd(fd) };
    f.write_all(&bincode::serialize(&r).unwrap()).unwrap();
    let _ = std::io::stdout().flush();
    unsafe { libc::_exit(0) }
}

extern "C" {
    fn on_exit(f: extern "C" fn(i32, *mut libc::c_void), arg: *mut libc::c_void) -> i32;
}
/// the tool left by itself (std::process::exit)
extern "C" fn leaving(status: i32, _: *mut libc::c_void) {
    finish(if status == 0 { End::Ok } else { End::Failed })
}
fn finish(end: End) -> ! {
    let mut d = vfs::unmount();
    let img = match d.power_after() {
        Some(s) => d.after_power_loss(s),
        None => d.image(),
    };
    emit(end, &mut d, img)
}

/// In the tool's process: run it and leave.
pub fn serve() {
    let Ok(kind) = std::env::var("VSIM_TOOL") else { return };
    unsafe {
        libc::prctl(libc::PR_SET_PDEATHSIG, libc::SIGKILL);
        libc::alarm(60);
    }
    let mut b = vec![];
    std::io::stdin().read_to_end(&mut b).expect("plan");
    let (plan, entropy): (Plan, u64) = bincode::deserialize(&b).expect("plan");
    vfs::mount(
        plan,
        Some(Box::new(|d: &mut Disk, img: Option<Image>| match img {
            Some(i) => emit(End::Crashed, d, i),
            None => emit(End::Endless, d, Image::new()),
        })),
    );
    unsafe { on_exit(leaving, std::ptr::null_mut()) };
    simcore::interpose::activate(entropy);
    let r = std::panic::catch_unwind(|| {
        use std::process::Termination;
        let c = match kind.as_str() {
            "share" => share_tool::entry().report(),
            "plain" => plain_tool::entry().report(),
            _ => match_tool::entry().report(),
        };
        c == std::process::ExitCode::SUCCESS
    });
    finish(match r {
        Ok(true) => End::Ok,
        Ok(false) => End::Failed,
        Err(e) => End::Panicked(e.downcast_ref::<String>().cloned().or(e.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_default()),
    })
}

/// Run a tool with these arguments on a disk that follows this plan.
pub fn run(t: Tool, args: &[String], plan: &Plan, entropy: u64) -> Res {
    let fd = unsafe { libc::memfd_create(c"out".as_ptr(), 0) };
    assert!(fd >= 0);
    let out = unsafe { std::fs::File::from_raw_fd(fd) };
    let mut c = Command::new(std::env::current_exe().unwrap())
        .args(args)
        .env("VSIM_TOOL", t.name())
        .env("VSIM_TOOL_OUT", fd.to_string())
        .env_remove("RUST_BACKTRACE")
        .env_remove("VSIM_CHILD")
        .stdin(Stdio::piped())
        .stdout(Stdio::piped())
        .stderr(Stdio::null())
        .spawn()
        .expect("start the tool");
    let b = bincode::serialize(&(plan, entropy)).unwrap();
    let mut si = c.stdin.take().unwrap();
    let _ = si.write_all(&b);
    drop(si);
    let o = c.wait_with_output().expect("the tool");
    let mut buf = vec![0u8; out.metadata().unwrap().len() as usize];
    out.read_exact_at(&mut buf, 0).unwrap();
    match bincode::deserialize::<Res>(&buf) {
        Ok(mut r) => {
            r.stdout = String::from_utf8_lossy(&o.stdout).into_owned();
            r
        }
        // it left the process by itself, or was ended
        Err(_) => {
            use std::os::unix::process::ExitStatusExt;
            Res {
                end: match o.status.signal() {
                    Some(libc::SIGALRM) => End::Endless,
                    Some(s) => End::Killed(s),
                    None if o.status.success() => End::Ok,
                    None => End::Failed,
                },
                image: plan.image.clone(),
                total: 0,
                counts: Default::default(),
                applied: Default::default(),
                trace: 0,
                sleep_us: 0,
                log: vec![],
                stdout: String::from_utf8_lossy(&o.stdout).into_owned(),
            }
        }
    }
}

