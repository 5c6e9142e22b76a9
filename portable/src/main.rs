//! C39: digests of the results of all functions, on the inputs of spec/PlatformMC.tla and (natively) on many more,
//! to be compared between builds and targets by spec/PlatformTrace.tla. Under Miri this is a program without std.
//! ROWS names a file of bit patterns, 4 bytes each with the least significant one first.
#![cfg_attr(miri, no_std, no_main)]

mod calls;

static ROWS: &[u8] = include_bytes!(env!("ROWS"));

fn rows(i: usize) -> Option<u32> {
    let b = ROWS.get(4 * i..4 * i + 4)?;
    Some(b[0] as u32 | (b[1] as u32) << 8 | (b[2] as u32) << 16 | (b[3] as u32) << 24)
}

#[cfg(miri)]
mod bare {
    use core::fmt::Write;
    extern "Rust" {
        fn miri_write_to_stdout(bytes: &[u8]);
    }
    pub struct Out;
    impl Write for Out {
        fn write_str(&mut self, s: &str) -> core::fmt::Result {
            unsafe { miri_write_to_stdout(s.as_bytes()) };
            Ok(())
        }
    }
    #[panic_handler]
    fn panic(info: &core::panic::PanicInfo<'_>) -> ! {
        let _ = writeln!(Out, "\npanic {:?} at {:?}", info.message().as_str().unwrap_or(""), info.location().map(|l| l.line()));
        // nothing ends a program without std but an error
        unsafe { core::hint::unreachable_unchecked() }
    }
    #[no_mangle]
    fn miri_start(_: isize, _: *const *const u8) -> isize {
        let shard = option_env!("SHARD").unwrap_or("0/1").as_bytes();
        let order = if u16::from_ne_bytes([1, 0]) == 1 { "little" } else { "big" };
        let _ = writeln!(Out, "platform {} {order}\t1", usize::BITS);
        let digit = |i: usize| (shard[i] - b'0') as usize;
        crate::calls::all(&mut crate::calls::Record::new(&mut Out, digit(0), digit(2)));
        0
    }
}

#[cfg(not(miri))]
fn main() {
    struct Out;
    impl core::fmt::Write for Out {
        fn write_str(&mut self, s: &str) -> core::fmt::Result {
            use std::io::Write;
            std::io::stdout().write_all(s.as_bytes()).map_err(|_| core::fmt::Error)
        }
    }
    std::panic::set_hook(Box::new(|info| {
        println!("\npanic {}", info.to_string().replace('\n', " "));
        std::process::exit(0);
    }));
    let mut args = std::env::args().skip(1);
    match args.next().as_deref() {
        None => calls::all(&mut calls::Record::new(&mut Out, 0, 1)),
        // every 2^stride-th bit pattern
        Some(stride) => deep(stride.parse().unwrap()),
    }
}

#[cfg(not(miri))]
fn deep(stride: u32) {
    use std::sync::atomic::{AtomicUsize, Ordering};
    let ops = calls::unary();
    let results: Vec<Vec<std::sync::Mutex<u32>>> = ops.iter().map(|_| (0..512).map(|_| Default::default()).collect()).collect();
    let next = AtomicUsize::new(0);
    let threads = std::thread::available_parallelism().map_or(4, |n| n.get());
    std::thread::scope(|s| {
        for _ in 0..threads {
            s.spawn(|| loop {
                let job = next.fetch_add(1, Ordering::Relaxed);
                if job >= 512 * ops.len() {
                    break;
                }
                let (op, block) = (job % ops.len(), job / ops.len());
                *results[op][block].lock().unwrap() = ops[op].1(block as u32, stride);
            });
        }
    });
    for (op, r) in ops.iter().zip(&results) {
        let d: Vec<String> = r.iter().map(|d| d.lock().unwrap().to_string()).collect();
        println!("{}, all\t{}", op.0, d.join(" "));
    }
}
