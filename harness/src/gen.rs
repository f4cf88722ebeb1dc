//! Messages of every kind, made from a seed.
use over_there::core::request::{self as q, LazilyTransformedRequest, TransformRule};
use over_there::core::{reply as p, Reply, ReplyError, Request};
use rand::{rngs::StdRng, seq::SliceRandom, Rng, RngCore, SeedableRng};
use std::net::SocketAddr;

pub struct Gen {
    pub r: StdRng,
}
pub const REQUESTS: u8 = 29;
pub const REPLIES: u8 = 31;

impl Gen {
    pub fn new(seed: u64) -> Gen {
        Gen { r: StdRng::seed_from_u64(seed) }
    }
    pub fn bool(&mut self) -> bool {
        self.r.gen()
    }
    pub fn u32(&mut self) -> u32 {
        match self.r.gen_range(0, 6) {
            0 => 0,
            1 => u32::max_value(),
            2 => [23, 24, 255, 256, 65535, 65536, 1 << 31][self.r.gen_range(0, 7)],
            3 => self.r.gen_range(0, 100),
            _ => self.r.gen(),
        }
    }
    pub fn bytes(&mut self) -> Vec<u8> {
        let n = match self.r.gen_range(0, 8) {
            0 => 0,
            1 => self.r.gen_range(0, 400),
            _ => self.r.gen_range(0, 20),
        };
        match self.r.gen_range(0, 4) {
            0 => (0..n).map(|_| *b"aB 0\n\r\t\"'(){}[],:;|#\\$ .-_".choose(&mut self.r).unwrap()).collect(),
            1 => (0..n).map(|_| [0u8, 255, 127, 128, 10, 13, 34, 92][self.r.gen_range(0, 8)]).collect(),
            _ => {
                let mut v = vec![0; n];
                self.r.fill_bytes(&mut v);
                v
            }
        }
    }
    pub fn string(&mut self) -> String {
        const ODD: [&str; 30] = [
            "", " ", "a", "null", "true", "12", "-1.5e3", "nil", "#t", "#nil", "()", "(a . b)", "\"", "'", "\\", "\\\"", "\n", "\t\r", "\u{0}", "\u{7f}", "\u{1}x", "\u{fc}", "\u{4e16}\u{754c}", "\u{1f600}", "\u{feff}", "/a/b c", "..", ";", "|", "a\\nb",
        ];
        match self.r.gen_range(0, 5) {
            0 | 1 => ODD[self.r.gen_range(0, ODD.len())].to_string(),
            2 => {
                let n = self.r.gen_range(0, 6);
                (0..n).map(|_| ODD[self.r.gen_range(0, ODD.len())]).collect()
            }
            3 => {
                let n = self.r.gen_range(0, 30);
                (0..n).map(|_| self.r.gen::<char>()).collect()
            }
            _ => {
                let n = self.r.gen_range(0, 40);
                (0..n).map(|_| self.r.gen_range(32u8, 127) as char).collect()
            }
        }
    }
    pub fn addr(&mut self) -> SocketAddr {
        if self.bool() {
            SocketAddr::from((self.r.gen::<[u8; 4]>(), self.r.gen::<u16>()))
        } else {
            SocketAddr::from((self.r.gen::<[u8; 16]>(), self.r.gen::<u16>()))
        }
    }
    fn list<T>(&mut self, max: usize, mut f: impl FnMut(&mut Self) -> T) -> Vec<T> {
        let n = self.r.gen_range(0, max + 1);
        (0..n).map(|_| f(self)).collect()
    }
    pub fn rule(&mut self) -> TransformRule {
        TransformRule { path: self.string(), value: self.string() }
    }
    pub fn request(&mut self, depth: u8) -> Request {
        let k = self.r.gen();
        self.request_kind(k, depth)
    }
    pub fn request_kind(&mut self, k: u8, depth: u8) -> Request {
        let mut k = k % REQUESTS;
        if depth == 0 && (24..=26).contains(&k) {
            k = 27;
        }
        match k {
            0 => Request::Heartbeat,
            1 => Request::Version,
            2 => Request::Capabilities,
            3 => Request::CreateDir(q::CreateDirArgs { path: self.string(), include_components: self.bool() }),
            4 => Request::RenameDir(q::RenameDirArgs { from: self.string(), to: self.string() }),
            5 => Request::RemoveDir(q::RemoveDirArgs { path: self.string(), non_empty: self.bool() }),
            6 => Request::ListDirContents(q::ListDirContentsArgs { path: self.string() }),
            7 => Request::OpenFile(q::OpenFileArgs { path: self.string(), create_if_missing: self.bool(), write_access: self.bool(), read_access: self.bool() }),
            8 => Request::CloseFile(q::CloseFileArgs { id: self.u32(), sig: self.u32() }),
            9 => Request::RenameUnopenedFile(q::RenameUnopenedFileArgs { from: self.string(), to: self.string() }),
            10 => Request::RenameFile(q::RenameFileArgs { id: self.u32(), sig: self.u32(), to: self.string() }),
            11 => Request::RemoveUnopenedFile(q::RemoveUnopenedFileArgs { path: self.string() }),
            12 => Request::RemoveFile(q::RemoveFileArgs { id: self.u32(), sig: self.u32() }),
            13 => Request::ReadFile(q::ReadFileArgs { id: self.u32(), sig: self.u32() }),
            14 | 15 => Request::WriteFile(q::WriteFileArgs { id: self.u32(), sig: self.u32(), contents: self.bytes() }),
            16 | 17 => Request::ExecProc(q::ExecProcArgs {
                command: self.string(),
                args: self.list(4, |g| g.string()),
                stdin: self.bool(),
                stdout: self.bool(),
                stderr: self.bool(),
                current_dir: if self.bool() { Some(self.string()) } else { None },
            }),
            18 => Request::WriteProcStdin(q::WriteProcStdinArgs { id: self.u32(), input: self.bytes() }),
            19 => Request::ReadProcStdout(q::ReadProcStdoutArgs { id: self.u32() }),
            20 => Request::ReadProcStderr(q::ReadProcStderrArgs { id: self.u32() }),
            21 => Request::KillProc(q::KillProcArgs { id: self.u32() }),
            22 => Request::ReadProcStatus(q::ReadProcStatusArgs { id: self.u32() }),
            23 => Request::InternalDebug(q::InternalDebugArgs { input: self.bytes() }),
            24 => Request::Sequence(q::SequenceArgs {
                operations: self.list(4, |g| {
                    let r = g.request(depth - 1);
                    LazilyTransformedRequest::new(r, g.list(3, |g| g.rule()))
                }),
            }),
            25 => Request::Batch(q::BatchArgs { operations: self.list(4, |g| g.request(depth - 1)) }),
            26 => Request::Forward(q::ForwardArgs { address: self.addr(), request: Box::new(self.request(depth - 1)) }),
            _ => Request::Custom(q::CustomArgs { data: self.bytes() }),
        }
    }
    pub fn io_error(&mut self) -> p::IoErrorArgs {
        use p::SerErrorKind::*;
        let kinds = [
            NotFound, PermissionDenied, ConnectionRefused, ConnectionReset, ConnectionAborted, NotConnected, AddrInUse, AddrNotAvailable, BrokenPipe, AlreadyExists, WouldBlock, InvalidInput, InvalidData, TimedOut, WriteZero, Interrupted, Other, UnexpectedEof,
            NonExhaustive,
        ];
        p::IoErrorArgs {
            description: self.string(),
            os_code: if self.bool() { Some(self.r.gen_range(1, 134)) } else { None },
            error_kind: kinds[self.r.gen_range(0, kinds.len())].clone(),
        }
    }
    pub fn error(&mut self) -> ReplyError {
        match self.r.gen_range(0, 3) {
            0 => ReplyError::Generic(p::GenericErrorArgs { msg: self.string() }),
            1 => ReplyError::Io(self.io_error()),
            _ => ReplyError::FileSigChanged(p::FileSigChangedArgs { id: self.u32(), sig: self.u32() }),
        }
    }
    pub fn reply(&mut self, depth: u8) -> Reply {
        let k = self.r.gen();
        self.reply_kind(k, depth)
    }
    pub fn reply_kind(&mut self, k: u8, depth: u8) -> Reply {
        let mut k = k % REPLIES;
        if depth == 0 && (24..=26).contains(&k) {
            k = 27;
        }
        let code = |g: &mut Self| match g.r.gen_range(0, 4) {
            0 => None,
            1 => Some(0),
            2 => Some(g.r.gen_range(0, 256)),
            _ => Some(g.r.gen()),
        };
        match k {
            0 => Reply::Heartbeat,
            1 => Reply::Version(p::VersionArgs { version: self.string() }),
            2 => Reply::Capabilities(p::CapabilitiesArgs {
                capabilities: self.list(5, |g| {
                    [p::Capability::Custom, p::Capability::Exec, p::Capability::FileSystem, p::Capability::Forward][g.r.gen_range(0, 4)].clone()
                }),
            }),
            3 => Reply::DirCreated(p::DirCreatedArgs { path: self.string() }),
            4 => Reply::DirRenamed(p::DirRenamedArgs { from: self.string(), to: self.string() }),
            5 => Reply::DirRemoved(p::DirRemovedArgs { path: self.string() }),
            6 => Reply::DirContentsList(p::DirContentsListArgs {
                path: self.string(),
                entries: self.list(4, |g| p::DirEntry { path: g.string(), is_file: g.bool(), is_dir: g.bool(), is_symlink: g.bool() }),
            }),
            7 => Reply::FileOpened(p::FileOpenedArgs { id: self.u32(), sig: self.u32(), path: self.string(), read: self.bool(), write: self.bool() }),
            8 => Reply::FileClosed(p::FileClosedArgs { id: self.u32() }),
            9 => Reply::UnopenedFileRenamed(p::UnopenedFileRenamedArgs { from: self.string(), to: self.string() }),
            10 => Reply::FileRenamed(p::FileRenamedArgs { id: self.u32(), sig: self.u32() }),
            11 => Reply::UnopenedFileRemoved(p::UnopenedFileRemovedArgs { path: self.string() }),
            12 => Reply::FileRemoved(p::FileRemovedArgs { id: self.u32(), sig: self.u32() }),
            13 | 14 => Reply::FileContents(p::FileContentsArgs { id: self.u32(), contents: self.bytes() }),
            15 => Reply::FileWritten(p::FileWrittenArgs { id: self.u32(), sig: self.u32() }),
            16 => Reply::ProcStarted(p::ProcStartedArgs { id: self.u32() }),
            17 => Reply::ProcStdinWritten(p::ProcStdinWrittenArgs { id: self.u32() }),
            18 => Reply::ProcStdoutContents(p::ProcStdoutContentsArgs { id: self.u32(), output: self.bytes() }),
            19 => Reply::ProcStderrContents(p::ProcStderrContentsArgs { id: self.u32(), output: self.bytes() }),
            20 => Reply::ProcKilled(p::ProcKilledArgs { id: self.u32(), exit_code: code(self) }),
            21 => Reply::ProcStatus(p::ProcStatusArgs { id: self.u32(), is_alive: self.bool(), exit_code: code(self) }),
            22 => Reply::InternalDebug(p::InternalDebugArgs { output: self.bytes() }),
            23 | 28 | 29 => Reply::Error(self.error()),
            24 => Reply::Sequence(p::SequenceArgs { results: self.list(4, |g| g.reply(depth - 1)) }),
            25 => Reply::Batch(p::BatchArgs { results: self.list(4, |g| g.reply(depth - 1)) }),
            26 => Reply::Forward(p::ForwardArgs { address: self.addr(), reply: Box::new(self.reply(depth - 1)) }),
            _ => Reply::Custom(p::CustomArgs { data: self.bytes() }),
        }
    }
}
