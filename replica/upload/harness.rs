// drives the real cmdline/src/calls/uploads.rs against a recording agent
#[path = "@REPO@/cmdline/src/calls/uploads.rs"]
mod uploads;
use candid::{Decode, Encode, Nat, Principal};
use core_nft::updates::management::{finalize_upload, init_upload, store_chunk};
use sha2::{Digest, Sha256};
use std::future::Future;
use std::io::Write;
// reads may return less than asked for: SHORT > 0 limits what one read returns
static SHORT: std::sync::atomic::AtomicUsize = std::sync::atomic::AtomicUsize::new(0);
extern "C" { fn syscall(n: i64, ...) -> i64; }
#[no_mangle]
pub unsafe extern "C" fn read(fd: i32, buf: *mut u8, n: usize) -> isize {
    let s = SHORT.load(std::sync::atomic::Ordering::Relaxed);
    let n = if s > 0 && fd > 2 && n > s { s } else { n };
    syscall(0, fd, buf, n) as isize
}
fn run<F: Future>(f: F) -> F::Output {
    let mut f = Box::pin(f);
    let w = std::task::Waker::noop();
    let mut cx = std::task::Context::from_waker(&w);
    loop { if let std::task::Poll::Ready(v) = f.as_mut().poll(&mut cx) { return v; } }
}
fn case(dir: &std::path::Path, len: usize, chunk: u64, fail: Option<usize>, short: usize) -> Result<(), String> {
    SHORT.store(short, std::sync::atomic::Ordering::Relaxed);
    let data: Vec<u8> = (0..len).map(|i| ((i * 7919) ^ (i >> 8) ^ (i / 251)) as u8).collect();
    let p = dir.join("f");
    std::fs::File::create(&p).unwrap().write_all(&data).unwrap();
    let agent = ic_agent::Agent::default();
    *agent.fail.borrow_mut() = fail;
    let me = Principal::from_slice(&[7, 7, 7]);
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| run(uploads::upload_file(&agent, &me, p.to_str().unwrap(), "/dest", chunk))));
    let calls = agent.calls.borrow();
    let mut all: Vec<u8> = vec![]; let mut n = 0u64; let mut phase = 0;
    for (k, (c, m, a)) in calls.iter().enumerate() {
        if *c != me { return Err("another canister was asked".into()); }
        let failed = fail == Some(k);
        match m.as_str() {
            "init_upload" => {
                let a = Decode!(a, init_upload::Args).map_err(|e| e.to_string())?;
                if phase != 0 { return Err("announced twice or late".into()); }
                if a.file_path != "/dest" { return Err("announced path".into()); }
                if a.file_size != len as u64 { return Err(format!("announced size {} of a file of {} bytes", a.file_size, len)); }
                let h: String = Sha256::digest(&data).iter().map(|b| format!("{:02x}", b)).collect();
                if a.file_hash != h { return Err(format!("announced hash {} instead of {}", a.file_hash, h)); }
                if !failed { phase = 1; }
            }
            "store_chunk" => {
                let a = Decode!(a, store_chunk::Args).map_err(|e| e.to_string())?;
                if phase != 1 { return Err("chunk before the announcement or after the end".into()); }
                if a.file_path != "/dest" { return Err("chunk path".into()); }
                if a.chunk_id != Nat::from(n) { return Err(format!("chunk {} numbered {}", n, a.chunk_id)); }
                if all.len() + a.chunk_data.len() > len || a.chunk_data[..] != data[all.len()..all.len() + a.chunk_data.len()] { return Err(format!("chunk {} is not the next piece of the file", n)); }
                if !failed { all.extend(&a.chunk_data); n += 1; }
            }
            "finalize_upload" => {
                let a = Decode!(a, finalize_upload::Args).map_err(|e| e.to_string())?;
                if phase != 1 || a.file_path != "/dest" { return Err("closed before the announcement, or another path".into()); }
                if all != data { return Err(format!("closed after {} of {} bytes", all.len(), len)); }
                if !failed { phase = 2; }
            }
            o => return Err(format!("call of {}", o)),
        }
    }
    match r {
        Ok(Ok(_)) if phase != 2 || all != data => Err(format!("success reported after {} of {} bytes", all.len(), len)),
        Ok(Err(e)) if fail.is_none() => Err(format!("no call failed, yet the upload did: {}", e)),
        Err(_) if fail.is_none() && chunk > 0 => Err("panic".into()),
        _ => Ok(()),
    }
}
fn main() {
    std::panic::set_hook(Box::new(|_| {}));
    let dir = std::env::temp_dir().join(format!("upload-{}", std::process::id()));
    std::fs::create_dir_all(&dir).unwrap();
    let a: Vec<String> = std::env::args().skip(1).collect();
    let mut cases: Vec<(usize, u64, Option<usize>, usize)> = vec![];
    if a.len() >= 2 { cases.push((a[0].parse().unwrap(), a[1].parse().unwrap(), a.get(2).and_then(|x| x.parse().ok()), a.get(3).map_or(0, |x| x.parse().unwrap()))); }
    else {
        for chunk in [1u64, 2, 3, 5, 7, 8, 10, 16, 100, 255, 256, 1000, 1024, 4096, 65536, 200000] {
            let mut ls: Vec<usize> = vec![0, 1, 2, 3, 10];
            for k in [1usize, 2, 3, 10, 11, 255, 256, 257] { for d in [-1i64, 0, 1] {
                let l = (k as i64) * (chunk as i64) + d; if l >= 0 && l <= 600_000 { ls.push(l as usize); } } }
            ls.sort(); ls.dedup();
            for l in ls { if l as u64 / chunk <= 300 { cases.push((l, chunk, None, 0)); } }
        }
        cases.push((66000, 1, None, 0)); cases.push((1_200_000, 500_000, None, 0)); cases.push((17_000_000, 2_000_000, None, 0));
        for k in 0..6 { cases.push((10, 3, Some(k), 0)); cases.push((9, 3, Some(k), 0)); }
        for s in [1usize, 2, 7, 100] { for (l, c) in [(10usize, 3u64), (9, 3), (64, 16), (65, 16), (250, 100), (1000, 1000), (1001, 250)] { cases.push((l, c, None, s)); } }
    }
    let mut bad = None;
    for (l, c, f, s) in &cases { if let Err(e) = case(&dir, *l, *c, *f, *s) { bad = Some((l, c, f, s, e)); break; } }
    let _ = std::fs::remove_dir_all(&dir);
    match bad {
        Some((l, c, f, s, e)) => { println!("{{\"file_bytes\":{},\"chunk_size\":{},\"failing_call\":{},\"bytes_per_read\":{},\"what\":{:?}}}", l, c, f.map_or("null".into(), |x| x.to_string()), if *s == 0 { "null".into() } else { s.to_string() }, e); std::process::exit(3) }
        None => println!("{{\"cases\":{}}}", cases.len()),
    }
}
