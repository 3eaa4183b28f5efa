//! The command-line program, run as a process on scratch files.
use crate::sut::parse;
use std::os::unix::ffi::OsStrExt;
use std::os::unix::fs::OpenOptionsExt;
use std::process::{Command, Stdio};
use std::time::{Duration, Instant};

extern "C" {
    fn mkfifo(path: *const std::os::raw::c_char, mode: u32) -> i32;
}

pub fn eval_cli(bytes: &[u8], mode: u8) -> Result<(), String> {
    let bin = std::env::var("JSPARSE_BIN").map_err(|_| "JSPARSE_BIN is not set".to_string())?;
    let dir = crate::engine::scratch().join("cli");
    std::fs::create_dir_all(&dir).unwrap();
    let names: [&[u8]; 7] = [b"in.js", b"a b.js", b"-x", "é.txt".as_bytes(), b"noext", b"caf\xe9.js", b"new\nline"];
    let bare: [&[u8]; 7] = [b"in.js", b"-", b"-x", b"--help", b"--", b"@a", b"*.js"];
    let names = if mode == 7 { bare } else { names };
    let file = dir.join(std::ffi::OsStr::from_bytes(names[(bytes.len() + mode as usize) % names.len()]));
    std::fs::remove_file(&file).ok();
    let mut cmd = Command::new(&bin);
    cmd.current_dir(&dir).stdin(Stdio::null()).stdout(Stdio::null()).stderr(Stdio::piped());
    let accepted = || std::str::from_utf8(bytes).map_or(false, |s| parse(s).ok());
    let long_ago = std::time::UNIX_EPOCH + Duration::from_secs(1_000_000_000);
    let put = |f: &std::path::Path| {
        std::fs::write(f, bytes).unwrap();
        let h = std::fs::OpenOptions::new().write(true).open(f).unwrap();
        h.set_modified(long_ago).unwrap();
    };
    let mut feeder = None;
    let want = match mode {
        0 => {
            put(&file);
            cmd.arg(&file);
            accepted()
        }
        1 => {
            // relative path
            put(&file);
            cmd.arg(std::path::Path::new(".").join(file.file_name().unwrap()));
            accepted()
        }
        2 => {
            cmd.arg(dir.join("missing.js"));
            false
        }
        3 => {
            cmd.arg(&dir);
            false
        }
        5 => {
            // by a symbolic link
            put(&file);
            let link = dir.join("link.js");
            std::fs::remove_file(&link).ok();
            std::os::unix::fs::symlink(&file, &link).unwrap();
            cmd.arg(&link);
            accepted()
        }
        7 => {
            // a name as it stands
            put(&file);
            cmd.arg(file.file_name().unwrap());
            accepted()
        }
        6 => {
            // a pipe: no length known in advance, read in pieces
            let fifo = dir.join("fifo");
            std::fs::remove_file(&fifo).ok();
            let c = std::ffi::CString::new(fifo.as_os_str().as_bytes()).unwrap();
            if unsafe { mkfifo(c.as_ptr(), 0o600) } != 0 {
                return Ok(());
            }
            cmd.arg(&fifo);
            feeder = Some(fifo);
            accepted()
        }
        _ => false,
    };
    let mut child = cmd.spawn().map_err(|e| format!("cannot run {}: {}", bin, e))?;
    let mut err = child.stderr.take().unwrap();
    let t = std::thread::spawn(move || {
        let mut v = Vec::new();
        use std::io::Read;
        err.read_to_end(&mut v).ok();
        v
    });
    if let Some(fifo) = &feeder {
        // opened for reading too, so that nothing blocks should the program end early
        let (fifo, bytes) = (fifo.clone(), bytes.to_vec());
        std::thread::spawn(move || {
            use std::io::Write;
            if let Ok(mut f) = std::fs::OpenOptions::new().write(true).open(&fifo) {
                for part in bytes.chunks(1000) {
                    if f.write_all(part).is_err() {
                        break;
                    }
                }
            }
        });
    }
    let t0 = Instant::now();
    let st = loop {
        if let Some(s) = child.try_wait().unwrap() {
            break s;
        }
        if t0.elapsed() > Duration::from_secs(120) {
            child.kill().ok();
            child.wait().ok();
            return Err("the program did not end within 120 s".into());
        }
        std::thread::sleep(Duration::from_micros(200));
    };
    let err = t.join().unwrap();
    if let Some(fifo) = &feeder {
        // a feeder still waiting for a reader gets one
        std::fs::OpenOptions::new().read(true).custom_flags(0o4000).open(fifo).ok();
    }
    let show = crate::case::show_src(&String::from_utf8_lossy(bytes));
    if st.success() != want {
        return Err(format!(
            "mode {} on {}: {}, expected {}",
            mode,
            show,
            st,
            if want { "exit status 0" } else { "a failure" }
        ));
    }
    if st.code().is_none() {
        return Err(format!("mode {} on {}: ended by a signal ({})", mode, show, st));
    }
    if !want && err.is_empty() {
        return Err(format!("mode {} on {}: failed without a message on standard error", mode, show));
    }
    if let 0 | 1 | 5 | 7 = mode {
        let same_time = std::fs::metadata(&file).and_then(|m| m.modified()).ok() == Some(long_ago);
        if same_time && std::fs::read(&file).ok().as_deref() == Some(bytes) {
            return Ok(());
        }
        return Err(format!("mode {} on {}: the file was modified", mode, show));
    }
    Ok(())
}
