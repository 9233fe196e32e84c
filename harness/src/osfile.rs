//! Image files: the operating system's file calls are replaced for one path
//! by a model whose outcomes (short reads, interruptions, errors) are
//! symbolic. Both builds use it: the definitions below take precedence over
//! the C library's.
super::entries! { h_os_read h_os_load h_os_open }

mod imp {
    use super::super::img::*;
    use super::super::prim::*;
    use ext4_view::{Ext4, Ext4Error, Ext4Read};
    use std::ffi::{c_char, c_void};

    const PATH: &str = "/model.img";
    const FD: i32 = 0x4000_0001;
    const EINTR: i32 = 4;
    const EIO: i32 = 5;
    const EINVAL: i32 = 22;

    struct Os {
        img: Vec<u8>,
        pos: u64,
        open: bool,
        open_errno: i32,
        seek_errno: i32,
        /// Calls of read from now whose outcome is chosen.
        window: u64,
        skip: u64,
        /// An error was returned which has to surface.
        failed: bool,
        short: bool,
        interrupted: bool,
        reads: u64,
        seeks: u64,
        closes: u64,
    }
    static mut OS: Option<Os> = None;
    #[allow(static_mut_refs)]
    fn os() -> &'static mut Os {
        unsafe { OS.as_mut().unwrap() }
    }
    fn setup(img: Vec<u8>) {
        unsafe {
            OS = Some(Os { img, pos: 0, open: false, open_errno: 0, seek_errno: 0, window: 0, skip: 0, failed: false, short: false, interrupted: false, reads: 0, seeks: 0, closes: 0 });
        }
    }
    unsafe extern "C" {
        fn __errno_location() -> *mut i32;
        #[cfg(feature = "replay")]
        fn syscall(n: i64, ...) -> i64;
    }
    fn fail(e: i32) {
        unsafe { *__errno_location() = e }
    }

    #[unsafe(no_mangle)]
    unsafe extern "C" fn open64(path: *const c_char, flags: i32, mode: u32) -> i32 {
        let p = unsafe { std::slice::from_raw_parts(path as *const u8, PATH.len() + 1) };
        let mut same = true;
        for (i, b) in PATH.bytes().chain([0]).enumerate() {
            if p[i] != b {
                same = false;
                break;
            }
        }
        if !same {
            #[cfg(feature = "replay")]
            return unsafe { syscall(257, -100i64, path, flags as i64, mode as i64) as i32 };
            #[cfg(not(feature = "replay"))]
            kill();
        }
        let _ = mode;
        let o = os();
        // Read-only.
        check(flags & 3 == 0 && flags & 0o3100 == 0, 90);
        check(!o.open, 91);
        if o.open_errno != 0 {
            fail(o.open_errno);
            if o.open_errno == EINTR {
                o.open_errno = 0;
            }
            return -1;
        }
        o.open = true;
        FD
    }
    #[unsafe(no_mangle)]
    unsafe extern "C" fn lseek64(fd: i32, off: i64, whence: i32) -> i64 {
        if fd != FD {
            #[cfg(feature = "replay")]
            return unsafe { syscall(8, fd as i64, off, whence as i64) };
            #[cfg(not(feature = "replay"))]
            kill();
        }
        let o = os();
        check(o.open, 92);
        o.seeks += 1;
        if o.seek_errno != 0 {
            o.failed = true;
            fail(o.seek_errno);
            return -1;
        }
        let base = match whence {
            0 => 0,
            1 => o.pos as i64,
            2 => o.img.len() as i64,
            _ => {
                fail(EINVAL);
                return -1;
            }
        };
        let n = base.wrapping_add(off);
        if n < 0 {
            fail(EINVAL);
            return -1;
        }
        o.pos = n as u64;
        n
    }
    #[unsafe(no_mangle)]
    unsafe extern "C" fn read(fd: i32, buf: *mut c_void, n: usize) -> isize {
        let buf = buf as *mut u8;
        if fd != FD {
            #[cfg(feature = "replay")]
            return unsafe { syscall(0, fd as i64, buf, n) as isize };
            #[cfg(not(feature = "replay"))]
            kill();
        }
        let o = os();
        check(o.open, 93);
        o.reads += 1;
        let pos = o.pos;
        let len = o.img.len() as u64;
        let there = if pos >= len { 0 } else { concretize(len - pos) as usize };
        let mut m = n.min(there);
        if o.skip > 0 {
            o.skip -= 1;
        } else if o.window > 0 {
            o.window -= 1;
            match choose(4) {
                0 => {}
                1 => {
                    o.interrupted = true;
                    fail(EINTR);
                    return -1;
                }
                2 => {
                    o.failed = true;
                    fail(EIO);
                    return -1;
                }
                _ => {
                    // Some of it, at least one byte.
                    if m > 1 {
                        o.short = true;
                        let k = if m <= 8 { 1 + choose(m as u64 - 1) as usize } else { [1, m / 2, m - 1][choose(3) as usize] };
                        m = k;
                    }
                }
            }
        }
        if m > 0 {
            let p = o.img.len() - there;
            unsafe { std::ptr::copy_nonoverlapping(o.img[p..p + m].as_ptr(), buf, m) };
            o.pos += m as u64;
        }
        m as isize
    }
    #[unsafe(no_mangle)]
    unsafe extern "C" fn close(fd: i32) -> i32 {
        if fd != FD {
            #[cfg(feature = "replay")]
            return unsafe { syscall(3, fd as i64) as i32 };
            #[cfg(not(feature = "replay"))]
            kill();
        }
        check(os().open, 94);
        os().open = false;
        os().closes += 1;
        0
    }
    /// Debug builds of std ask whether a file is open before closing it.
    #[cfg(feature = "replay")]
    #[unsafe(no_mangle)]
    unsafe extern "C" fn fcntl(fd: i32, cmd: i32, arg: usize) -> i32 {
        if fd == FD {
            return if os().open { 0 } else { -1 };
        }
        unsafe { syscall(72, fd as i64, cmd as i64, arg) as i32 }
    }
    /// The error as it is or boxed once more.
    fn io<'a>(e: &'a (dyn std::error::Error + 'static)) -> Option<&'a std::io::Error> {
        e.downcast_ref::<std::io::Error>().or_else(|| e.downcast_ref::<Box<std::io::Error>>().map(|e| &**e))
    }
    fn errno(e: &(dyn std::error::Error + 'static)) -> Option<i32> {
        io(e).and_then(|e| e.raw_os_error())
    }
    fn is_eof(e: &(dyn std::error::Error + 'static)) -> bool {
        io(e).is_some_and(|e| e.kind() == std::io::ErrorKind::UnexpectedEof)
    }

    /// One read at any offset after another one, with any outcomes of the
    /// first calls. params: [image bytes, most bytes asked for, calls with an
    /// outcome of choice]
    pub fn h_os_read() {
        let n = param(0) as usize;
        let img: Vec<u8> = (0..n).map(|i| 0x41 + i as u8).collect();
        setup(img.clone());
        let Ok(mut f) = std::fs::File::open(PATH) else { return check(false, 1) };
        // Leaves the position anywhere.
        let at = choose(3);
        let _ = Ext4Read::read(&mut f, [0, n as u64 - 1, n as u64 + 1][at as usize], &mut [0; 2]);
        let off = u64s();
        let k = 1 + choose(param(1)) as usize;
        let mut dst = vec![0xa5u8; k];
        if flag() {
            os().seek_errno = EIO;
        }
        os().window = param(2);
        let r = Ext4Read::read(&mut f, off, &mut dst);
        os().window = 0;
        os().seek_errno = 0;
        let inside = (off <= n as u64) & (off.wrapping_add(k as u64) <= n as u64);
        match r {
            Ok(()) => {
                reach(0);
                check(inside && !os().failed, 2);
                let off = concretize(off);
                for i in 0..k {
                    check(dst[i] == img[off as usize + i], 3);
                }
                if os().short && os().interrupted {
                    reach(1);
                }
            }
            Err(e) => {
                check(!inside || os().failed, 4);
                if os().failed {
                    reach(2);
                    check(errno(&*e) == Some(EIO) || !inside, 5);
                } else if off < 1 << 63 {
                    reach(3);
                    check(is_eof(&*e), 6);
                } else {
                    reach(4);
                    check(errno(&*e) == Some(EINVAL), 7);
                }
            }
        }
        // The next read is not affected.
        let mut one = [0u8];
        check(Ext4Read::read(&mut f, n as u64 - 1, &mut one).is_ok() && one[0] == img[n - 1], 8);
        drop(f);
        check(os().closes == 1, 9);
    }

    fn image(csum: bool) -> Img {
        let mut im = Img::new(if csum { Cfg::csum() } else { Cfg::basic() });
        im.dir(2, &[20]);
        im.dirblock(20, &[(2, 2, b"."), (2, 2, b".."), (12, 1, b"f")]);
        im.file(12, 1024 + 300, &[(0, 1, 30), (1, 1, 28)]);
        let o = im.blk(30);
        im.d[o..o + 1024].fill(b'a');
        let o = im.blk(28);
        im.d[o..o + 300].fill(b'b');
        if csum {
            im.fix_dirblock(2, 20);
        }
        im.fix(&[2, 12]);
        im
    }
    fn right(v: &[u8]) -> bool {
        v.len() == 1324 && v[..1024].iter().all(|x| *x == b'a') && v[1024..].iter().all(|x| *x == b'b')
    }

    /// Loading from a path and reading a file, with consecutive calls of
    /// chosen outcomes starting anywhere. params: [csum, calls with an
    /// outcome of choice, latest start]
    pub fn h_os_load() {
        setup(image(param(0) == 1).d);
        os().window = param(1);
        os().skip = choose(param(2));
        let judge = |e: &Ext4Error| match e {
            Ext4Error::Io(e) => {
                reach(1);
                check(os().failed && errno(&**e) == Some(EIO), 1);
            }
            _ => check(false, 2),
        };
        let fs = match Ext4::load_from_path(PATH) {
            Ok(fs) => fs,
            Err(e) => return judge(&e),
        };
        check(!os().failed, 3);
        match fs.read("/f") {
            Ok(v) => {
                reach(0);
                check(!os().failed && right(&v), 4);
                if os().short {
                    reach(2);
                }
            }
            Err(e) => {
                judge(&e);
                os().window = 0;
                check(fs.read("/f").is_ok_and(|v| right(&v)), 5);
            }
        }
        drop(fs);
        check(!os().open && os().closes == 1, 6);
    }

    /// A path which cannot be opened. params: []
    pub fn h_os_open() {
        setup(image(false).d);
        let e = u8s();
        assume(e != 0 && e < 134);
        os().open_errno = e as i32;
        match Ext4::load_from_path(PATH) {
            Ok(fs) => {
                reach(0);
                check(e as i32 == EINTR, 1);
                check(fs.read("/f").is_ok_and(|v| right(&v)), 2);
            }
            Err(Ext4Error::Io(x)) => {
                reach(1);
                check(errno(&*x) == Some(e as i32), 3);
                check(os().reads == 0 && os().closes == 0, 4);
            }
            Err(_) => check(false, 5),
        }
    }
}
