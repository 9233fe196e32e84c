#![allow(dead_code)]
#[path = "prim.rs"]
pub mod prim;
#[path = "img.rs"]
pub mod img;
#[path = "dev.rs"]
pub mod dev;

/// Declares scenario entry points (`h_*`) and the replay table.
macro_rules! entries {
    ($($f:ident)*) => {
        $(
            #[unsafe(no_mangle)]
            pub extern "C" fn $f() {
                imp::$f()
            }
        )*
        pub static TABLE: &[(&str, extern "C" fn())] = &[$((stringify!($f), $f)),*];
    };
}
pub(crate) use entries;


pub mod util {
    use ext4_view::Ext4Error;
    #[derive(Clone, Copy, PartialEq, Eq)]
    pub enum K {
        Ok,
        Io,
        Corrupt,
        Incompat,
        NotAbsolute,
        NotASymlink,
        NotFound,
        IsADirectory,
        NotADirectory,
        IsASpecialFile,
        FileTooLarge,
        NotUtf8,
        MalformedPath,
        PathTooLong,
        TooManySymlinks,
        Encrypted,
        Other,
    }
    pub fn kind(e: &Ext4Error) -> K {
        match e {
            Ext4Error::Io(_) => K::Io,
            Ext4Error::Corrupt(_) => K::Corrupt,
            Ext4Error::Incompatible(_) => K::Incompat,
            Ext4Error::NotAbsolute => K::NotAbsolute,
            Ext4Error::NotASymlink => K::NotASymlink,
            Ext4Error::NotFound => K::NotFound,
            Ext4Error::IsADirectory => K::IsADirectory,
            Ext4Error::NotADirectory => K::NotADirectory,
            Ext4Error::IsASpecialFile => K::IsASpecialFile,
            Ext4Error::FileTooLarge => K::FileTooLarge,
            Ext4Error::NotUtf8 => K::NotUtf8,
            Ext4Error::MalformedPath => K::MalformedPath,
            Ext4Error::PathTooLong => K::PathTooLong,
            Ext4Error::TooManySymlinks => K::TooManySymlinks,
            Ext4Error::Encrypted => K::Encrypted,
            _ => K::Other,
        }
    }
    pub fn rk<T>(r: &Result<T, Ext4Error>) -> K {
        match r {
            Ok(_) => K::Ok,
            Err(e) => kind(e),
        }
    }
    /// Unwraps or abandons the check of this path as failed.
    pub fn ok<T>(r: Result<T, Ext4Error>, id: u32) -> T {
        match r {
            Ok(v) => v,
            Err(_) => {
                super::prim::check(false, id);
                super::prim::kill()
            }
        }
    }
}

#[path = "sb.rs"]
pub mod sb;
#[path = "file.rs"]
pub mod file;
#[path = "dir.rs"]
pub mod dir;
#[path = "path.rs"]
pub mod path;
#[path = "meta.rs"]
pub mod meta;
#[path = "cache.rs"]
pub mod cache;
#[path = "hist.rs"]
pub mod hist;
#[path = "fault.rs"]
pub mod fault;
#[path = "csum.rs"]
pub mod csum;
#[path = "journal.rs"]
pub mod journal;
#[path = "osfile.rs"]
pub mod osfile;

pub fn table() -> Vec<(&'static str, extern "C" fn())> {
    let mut v = Vec::new();
    for t in [sb::TABLE, file::TABLE, dir::TABLE, path::TABLE, meta::TABLE, journal::TABLE, csum::TABLE, fault::TABLE, cache::TABLE, hist::TABLE, osfile::TABLE] {
        v.extend_from_slice(t);
    }
    v
}

#[cfg(feature = "replay")]
pub fn replay_main() {
    use prim::imp;
    use std::sync::atomic::Ordering;
    let a: Vec<String> = std::env::args().collect();
    if a.len() < 2 || a[1] == "--list" {
        for t in table() {
            println!("{}", t.0);
        }
        return;
    }
    // replay ENTRY PARAMS MODELHEX MAX_ALLOC
    let params: Vec<u64> = a[2].split(',').filter(|s| !s.is_empty()).map(|s| s.parse().unwrap()).collect();
    let model: Vec<u8> = (0..a[3].len() / 2).map(|i| u8::from_str_radix(&a[3][2 * i..2 * i + 2], 16).unwrap()).collect();
    std::panic::set_hook(Box::new(|i| {
        println!("PANIC {}", i.to_string().replace('\n', " "));
        std::process::exit(43);
    }));
    let f = table().into_iter().find(|t| t.0 == a[1]).expect("entry").1;
    imp::PARAMS.with(|p| *p.borrow_mut() = params);
    imp::MODEL.with(|m| *m.borrow_mut() = (model, 0));
    imp::MAX_ALLOC.store(a[4].parse().unwrap(), Ordering::Relaxed);
    // Deep recursion is an abort here as it is in the crate's users.
    f();
    imp::MAX_ALLOC.store(u64::MAX, Ordering::Relaxed);
    println!("DONE");
}
