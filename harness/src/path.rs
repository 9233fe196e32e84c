//! Path resolution, symbolic links, path and name values.
super::entries! { h_resolve h_resolve_link h_links h_long_walk h_path_len h_symlink h_path h_path_long h_path_many h_join h_components h_name h_name_long h_path_cmp h_path_fmt h_path_from h_name_cmp }

mod imp {
    use std::cmp::Ordering;
    use super::super::dev::*;
    use super::super::img::*;
    use super::super::prim::*;
    use super::super::util::*;
    use ext4_view::{Component, DirEntryName, DirEntryNameError, Ext4, Path, PathBuf, PathError};

    /// The tree: name, number, directory it is in, kind.
    struct Ent {
        dir: u32,
        name: &'static [u8],
        ino: u32,
    }
    const DIRS: [(u32, u64, u32); 3] = [(2, 20, 2), (11, 22, 2), (14, 24, 11)];
    const ENTS: [Ent; 8] = [
        Ent { dir: 2, name: b"d", ino: 11 },
        Ent { dir: 2, name: b"f", ino: 12 },
        Ent { dir: 2, name: b"s", ino: 13 },
        Ent { dir: 11, name: b"e", ino: 14 },
        Ent { dir: 11, name: b"f", ino: 15 },
        Ent { dir: 11, name: b"s", ino: 16 },
        Ent { dir: 14, name: b"..d", ino: 15 },
        Ent { dir: 14, name: b"d", ino: 12 },
    ];
    fn kind_of(ino: u32) -> u8 {
        match ino {
            2 | 11 | 14 => 2,
            13 | 16 => 7,
            _ => 1,
        }
    }
    /// `t13`, `t16`: targets of /s and /d/s.
    fn tree(t13: &[u8], t16: &[u8]) -> Dev {
        let mut im = Img::new(Cfg::basic());
        for (ino, b, parent) in DIRS {
            im.dir(ino, &[b]);
            let mut v: Vec<(u32, u8, &[u8])> = vec![(ino, 2, b"."), (parent, 2, b"..")];
            for e in &ENTS {
                if e.dir == ino {
                    v.push((e.ino, kind_of(e.ino), e.name));
                }
            }
            im.dirblock(b, &v);
            let o = im.ioff(ino);
            im.p16(o + 2, ino as u16);
        }
        for i in [12, 15] {
            let o = im.inode(i, S_REG | 0o644, 0, FL_EXT);
            im.extents(i, &[]);
            im.p16(o + 2, i as u16);
        }
        for (i, t) in [(13, t13), (16, t16)] {
            im.symlink(i, t);
            let o = im.ioff(i);
            im.p16(o + 2, i as u16);
        }
        Dev::new(im.d)
    }

    /// Reference: walks components with a stack; no strings are rewritten.
    /// `Err(None)` = some error of an invalid symlink target.
    fn walk(p: &[u8], follow_last: bool, t13: &[u8], t16: &[u8]) -> Result<(u32, Vec<u8>), K> {
        if p.is_empty() || p[0] != b'/' {
            return Err(K::NotAbsolute);
        }
        fn push(todo: &mut Vec<Vec<u8>>, p: &[u8]) -> bool {
            // Reversed list of components; whether a slash ends it.
            let mut v = Vec::new();
            for c in p.split(|b| *b == b'/') {
                if !c.is_empty() {
                    v.push(c.to_vec());
                }
            }
            while let Some(c) = v.pop() {
                todo.push(c);
            }
            p[p.len() - 1] == b'/'
        }
        let mut todo = Vec::new();
        let mut slash = push(&mut todo, p);
        let mut ino = 2u32;
        let mut names: Vec<Vec<u8>> = Vec::new();
        let mut links = 0;
        while let Some(c) = todo.pop() {
            if kind_of(ino) != 2 {
                return Err(K::NotADirectory);
            }
            if c == b"." {
                continue;
            }
            if c == b".." {
                ino = DIRS.iter().find(|d| d.0 == ino).unwrap().2;
                names.pop();
                continue;
            }
            let Some(e) = ENTS.iter().find(|e| e.dir == ino && e.name == &c[..]) else { return Err(K::NotFound) };
            if kind_of(e.ino) == 7 && (follow_last || !todo.is_empty()) {
                links += 1;
                if links > 40 {
                    return Err(K::TooManySymlinks);
                }
                let t = if e.ino == 13 { t13 } else { t16 };
                if t.contains(&0) {
                    return Err(K::Corrupt);
                }
                if t[0] == b'/' {
                    ino = 2;
                    names.clear();
                }
                let last = todo.is_empty();
                let s = push(&mut todo, t);
                if last {
                    slash |= s;
                }
            } else {
                ino = e.ino;
                names.push(c);
            }
        }
        if slash && kind_of(ino) != 2 {
            return Err(K::NotADirectory);
        }
        let mut canon = Vec::new();
        for n in names {
            canon.push(b'/');
            canon.extend_from_slice(&n);
        }
        if canon.is_empty() {
            canon.push(b'/');
        }
        Ok((ino, canon))
    }

    fn compare(fs: &Ext4, p: &[u8], t13: &[u8], t16: &[u8]) {
        let has_nul = p.contains(&0);
        let Ok(path) = Path::try_from(p) else {
            check(has_nul, 1);
            check(matches!(fs.metadata(p), Err(e) if kind(&e) == K::MalformedPath), 2);
            check(matches!(fs.exists(p), Err(e) if kind(&e) == K::MalformedPath), 3);
            reach(3);
            return;
        };
        check(!has_nul, 4);
        let want = walk(p, true, t13, t16);
        match (fs.metadata(path), &want) {
            (Ok(m), Ok((ino, _))) => {
                reach(0);
                check(m.uid() == *ino, 10);
            }
            (Err(e), Err(k)) => {
                reach(1);
                check(kind(&e) == *k, 11);
            }
            (Ok(_), Err(_)) => check(false, 12),
            (Err(_), Ok(_)) => check(false, 13),
        }
        match (fs.canonicalize(path), &want) {
            (Ok(c), Ok((ino, canon))) => {
                check(eq_bytes(c.as_ref(), canon), 20);
                let c = c.as_path();
                check(matches!(fs.symlink_metadata(c), Ok(m) if m.uid() == *ino), 21);
            }
            (Err(e), Err(k)) => check(kind(&e) == *k, 22),
            _ => check(false, 23),
        }
        match (fs.exists(path), &want) {
            (Ok(b), Ok(_)) => check(b, 30),
            (Ok(b), Err(K::NotFound)) => check(!b, 31),
            (Err(e), Err(k)) => check(kind(&e) == *k && *k != K::NotFound, 32),
            _ => check(false, 33),
        }
        match (fs.open(path), &want) {
            (Ok(f), Ok((ino, _))) => check(f.metadata().uid() == *ino && kind_of(*ino) == 1, 60),
            (Err(e), Ok((ino, _))) => check(kind_of(*ino) == 2 && kind(&e) == K::IsADirectory, 61),
            (Err(e), Err(k)) => check(kind(&e) == *k, 62),
            _ => check(false, 63),
        }
        match (fs.read_dir(path), &want) {
            (Ok(rd), Ok((ino, _))) => {
                check(kind_of(*ino) == 2, 70);
                reach(2);
                let mut n = 0;
                for e in rd {
                    let e = ok(e, 71);
                    let ep = e.path();
                    check(eq_bytes(ep.as_ref(), path.join(e.file_name()).as_ref()), 72);
                    let m = ok(e.metadata(), 73);
                    let i = match e.file_name().as_ref() {
                        b"." => *ino,
                        b".." => DIRS.iter().find(|d| d.0 == *ino).unwrap().2,
                        x => ENTS.iter().find(|e| e.dir == *ino && e.name == x).unwrap().ino,
                    };
                    check(m.uid() == i, 74);
                    n += 1;
                }
                check(n == 2 + ENTS.iter().filter(|e| e.dir == *ino).count(), 75);
            }
            (Err(e), Ok((ino, _))) => check(kind_of(*ino) != 2 && kind(&e) == K::NotADirectory, 76),
            (Err(e), Err(k)) => check(kind(&e) == *k, 77),
            _ => check(false, 78),
        }
        let want = walk(p, false, t13, t16);
        match (fs.symlink_metadata(path), &want) {
            (Ok(m), Ok((ino, _))) => check(m.uid() == *ino, 40),
            (Err(e), Err(k)) => check(kind(&e) == *k, 41),
            _ => check(false, 42),
        }
        match (fs.read_link(path), &want) {
            (Ok(t), Ok((13, _))) => check(eq_bytes(t.as_ref(), t13), 50),
            (Ok(t), Ok((16, _))) => check(eq_bytes(t.as_ref(), t16), 51),
            (Err(e), Ok((13, _))) => check(kind(&e) == K::Corrupt && t13.contains(&0), 52),
            (Err(e), Ok(_)) => check(kind(&e) == K::NotASymlink, 53),
            (Err(e), Err(k)) => check(kind(&e) == *k, 54),
            _ => check(false, 55),
        }
    }

    /// params: [arbitrary bytes after the first "/", variant of the link
    /// targets, 1 = arbitrary first byte too]
    pub fn h_resolve() {
        let n = param(0) as usize;
        let (a, b): (&[u8], &[u8]) = match param(1) {
            0 => (b"d/e", b"../f"),
            1 => (b"/d/", b"/d/e/"),
            2 => (b"d/s", b"./s"),
            3 => (b".//d/../d", b"../../.."),
            4 => (b"..", b"e/..d"),
            _ => (b"f/", b"."),
        };
        let fs = ok(tree(a, b).load(), 0);
        let mut p = vec![b'/'; n + 1];
        if param(2) == 1 {
            fill(&mut p);
        } else {
            fill(&mut p[1..]);
        }
        compare(&fs, &p, a, b);
    }

    /// Arbitrary target of /s. params: [length, path]
    pub fn h_resolve_link() {
        let n = param(0) as usize;
        let mut t = vec![0u8; n];
        fill(&mut t);
        let b: &[u8] = b"../s";
        let fs = ok(tree(&t, b).load(), 0);
        let p: &[u8] = match param(1) {
            0 => b"/s",
            1 => b"/s/f",
            2 => b"/d/s/",
            3 => b"/s/./s",
            _ => b"/d/s/../f",
        };
        compare(&fs, p, &t, b);
    }

    /// A chain of links "aa" -> "ab" -> ... -> directory; two chains of
    /// arbitrary lengths in one path, at most 40 in sum.
    /// params: [kind of target: 0 relative, 1 absolute; trailing slash]
    pub fn h_links() {
        let abs = param(0) == 1;
        const N: u32 = 44;
        let mut c = Cfg::basic();
        c.ipg = 64;
        let mut im = Img::new(c);
        let name = |i: u32| [b'a' + (i / 16) as u8, b'a' + (i % 16) as u8];
        let names: Vec<[u8; 2]> = (0..N).map(name).collect();
        im.dir(2, &[20]);
        im.dir(11, &[22]);
        let mut v: Vec<(u32, u8, &[u8])> = vec![(2, 2, b"."), (2, 2, b".."), (11, 2, b"d")];
        for i in 0..N {
            v.push((12 + i, 7, &names[i as usize]));
        }
        im.dirblock(20, &v);
        im.dirblock(22, &[(11, 2, b"."), (2, 2, b"..")]);
        for i in 0..N {
            let mut t = if abs { b"/".to_vec() } else { Vec::new() };
            if i + 1 == N {
                t.push(b'd');
            } else {
                t.extend_from_slice(&names[i as usize + 1]);
            }
            im.symlink(12 + i, &t);
        }
        let o = im.ioff(11);
        im.p16(o + 2, 11);
        let fs = ok(Dev::new(im.d).load(), 0);
        // Lengths of the two chains.
        let a = choose(N as u64 + 1) as u32;
        let b = choose(N as u64 + 1) as u32;
        assume(a + b >= 37 && a + b <= 46);
        let mut p = b"/".to_vec();
        let mut put = |p: &mut Vec<u8>, k: u32| {
            if k == 0 {
                p.push(b'd');
            } else {
                p.extend_from_slice(&names[(N - k) as usize]);
            }
        };
        put(&mut p, a);
        p.extend_from_slice(b"/../");
        put(&mut p, b);
        if param(1) == 1 {
            p.push(b'/');
        }
        match fs.metadata(&p[..]) {
            Ok(m) => {
                reach(0);
                check(a + b <= 40, 1);
                check(m.uid() == 11, 2);
            }
            Err(e) => {
                reach(1);
                check(a + b > 40, 3);
                check(kind(&e) == K::TooManySymlinks, 4);
            }
        }
        // The last component is not followed.
        let r = fs.symlink_metadata(&p[..]);
        if b > 0 && param(1) == 0 {
            check(r.is_ok() == (a <= 40), 5);
        }
    }

    /// The limit of 4096 bytes, initially and when a link lengthens the path.
    /// params: [0 plain path, 1 absolute link, 2 relative link]
    pub fn h_path_len() {
        let mode = param(0);
        let mut im = Img::new(Cfg::basic());
        im.dir(2, &[20]);
        im.dir(11, &[22]);
        let long = [b'n'; 249];
        im.dirblock(20, &[(2, 2, b"."), (2, 2, b".."), (11, 2, b"d"), (12, 7, b"l")]);
        // "d" contains itself under a name of 249 bytes.
        im.dirblock(22, &[(11, 2, b"."), (2, 2, b".."), (11, 2, &long)]);
        let o = im.ioff(11);
        im.p16(o + 2, 11);
        let mut t: Vec<u8> = if mode == 1 { b"/d".to_vec() } else { b"d".to_vec() };
        for _ in 0..2 {
            t.push(b'/');
            t.extend_from_slice(&long);
        }
        let o = im.inode(12, S_LNK | 0o777, t.len() as u64, FL_EXT);
        im.p16(o + 2, 12);
        im.extents(12, &[(0, 1, 30)]);
        let b = im.blk(30);
        im.d[b..b + t.len()].copy_from_slice(&t);
        let fs = ok(Dev::new(im.d).load(), 0);
        let mut p: Vec<u8> = if mode == 0 { b"/d".to_vec() } else { b"/l".to_vec() };
        // Length of the path once the link is replaced.
        let grow = match mode {
            0 => 0,
            1 => t.len() - 2,
            _ => t.len() - 1,
        };
        while p.len() + grow + 250 < 4096 - 10 {
            p.push(b'/');
            p.extend_from_slice(&long);
        }
        // The rest in repeated separators (mode 0: they count) or in "/.".
        let total = 4092 + choose(9) as usize;
        while p.len() + grow < total {
            let c = if mode == 0 || p[p.len() - 1] == b'/' { b'/' } else { b'/' };
            if mode != 0 && p[p.len() - 1] == b'/' {
                p.push(b'.');
            } else {
                p.push(c);
            }
        }
        let r = fs.metadata(&p[..]);
        if total <= 4096 {
            reach(0);
            check(matches!(&r, Ok(m) if m.uid() == 11), 1);
        } else {
            reach(1);
            check(rk(&r) == K::PathTooLong, 2);
        }
    }

    /// Symlinks whose targets have as many components as fit, one leading to
    /// the next: no number of steps within the limits on symlinks and length
    /// is too many.
    /// params: [largest number of links]
    pub fn h_long_walk() {
        let n = param(0) as u32;
        let mut im = Img::new(Cfg { ipg: 64, blocks: 256, len: 256 * 1024, ..Cfg::basic() });
        im.dir(2, &[20]);
        let names: Vec<[u8; 2]> = (0..n).map(|i| [b'a' + (i / 16) as u8, b'a' + (i % 16) as u8]).collect();
        let mut v: Vec<(u32, u8, &[u8])> = vec![(2, 2, b"."), (2, 2, b".."), (11, 1, b"f")];
        for i in 0..n {
            v.push((12 + i, 7, &names[i as usize]));
        }
        im.dirblock(20, &v);
        im.file(11, 1, &[(0, 1, 21)]);
        let o = im.ioff(11);
        im.p16(o + 2, 11);
        for i in 0..n {
            let mut t: Vec<u8> = Vec::new();
            for k in 0..2040 {
                t.extend_from_slice(if i % 2 == 1 && k % 8 == 7 { b".." } else { b"." });
                t.push(b'/');
            }
            t.truncate(4088);
            while t[t.len() - 1] != b'/' {
                t.pop();
            }
            if i == 0 {
                t.push(b'f');
            } else {
                t.extend_from_slice(&names[i as usize - 1]);
            }
            im.inode(12 + i, S_LNK | 0o777, t.len() as u64, FL_EXT);
            let b = 30 + 4 * i;
            im.extents(12 + i, &[(0, 4, b as u64)]);
            let b = im.blk(b as u64);
            im.d[b..b + t.len()].copy_from_slice(&t);
        }
        let fs = ok(Dev::new(im.d).load(), 0);
        let k = choose(n as u64) as usize;
        let mut p = b"/".to_vec();
        p.extend_from_slice(&names[k]);
        let r = fs.metadata(&p[..]);
        check(matches!(&r, Ok(m) if m.uid() == 11), 1);
        reach(0);
    }

    /// Targets of every length from 0 to param(0)-1, or exactly param(1) if
    /// not zero; six arbitrary bytes at the end and at the start.
    /// params: [length limit, exact length, 0 extents 1 block map, csum]
    pub fn h_symlink() {
        let csum = param(3) == 1;
        let mut im = Img::new(if csum { Cfg::csum() } else { Cfg::basic() });
        im.dir(2, &[20]);
        im.dirblock(20, &[(2, 2, b"."), (2, 2, b".."), (12, 7, b"l")]);
        let n = if param(1) != 0 { param(1) } else { choose(param(0)) } as usize;
        let mut t: Vec<u8> = (0..n).map(|i| if i % 50 == 49 { b'/' } else { 33 + (i % 90) as u8 }).collect();
        for x in t.iter_mut() {
            if *x == b'/' {
                *x = b'_';
            }
        }
        let mut i = 100;
        while i < n {
            t[i] = b'/';
            i += 100;
        }
        let k = n.min(4);
        fill(&mut t[n - k..]);
        if n >= 8 {
            fill(&mut t[..2]);
        }
        let inline = n < 60;
        let o = im.inode(12, S_LNK | 0o777, n as u64, if inline || param(2) == 1 { 0 } else { FL_EXT });
        if inline {
            im.d[o + 0x28..o + 0x28 + n].copy_from_slice(&t);
            // What follows the target is not part of it.
            for x in &mut im.d[o + 0x28 + n..o + 0x28 + 60] {
                *x = b'#';
            }
        } else {
            let blocks = [30u64, 33, 31, 35, 37];
            let nb = n.div_ceil(1024);
            if param(2) == 1 {
                for b in 0..nb {
                    im.p32(o + 0x28 + 4 * b, blocks[b] as u32);
                }
            } else {
                let e: Vec<(u32, u16, u64)> = (0..nb).map(|b| (b as u32, 1, blocks[b])).collect();
                im.extents(12, &e);
            }
            for b in 0..nb {
                let a = im.blk(blocks[b]);
                let m = (n - 1024 * b).min(1024);
                im.d[a..a + m].copy_from_slice(&t[1024 * b..1024 * b + m]);
                im.d[a + m..a + 1024].fill(b'#');
            }
        }
        if csum {
            im.fix_dirblock(2, 20);
        }
        im.fix(&[2, 12]);
        let fs = ok(Dev::new(im.d).load(), 0);
        let r = fs.read_link("/l");
        let nul = t.contains(&0);
        match r {
            Ok(p) => {
                reach(0);
                check(n > 0 && !nul, 1);
                check(eq_bytes(p.as_ref(), &t), 2);
            }
            Err(e) => {
                reach(1);
                check(n == 0 || nul, 3);
                check(kind(&e) == K::Corrupt, 4);
            }
        }
        note(1, n as u64);
    }

    // ---- values ----

    fn path_ok(p: &[u8]) -> Result<(), PathError> {
        if p.contains(&0) {
            return Err(PathError::ContainsNull);
        }
        let mut run = 0;
        for x in p {
            if *x == b'/' {
                run = 0;
            } else {
                run += 1;
                if run > 255 {
                    return Err(PathError::ComponentTooLong);
                }
            }
        }
        Ok(())
    }

    fn all_conversions(p: &[u8]) {
        let want = path_ok(p);
        let r = Path::try_from(p);
        check(r.as_ref().err() == want.as_ref().err(), 1);
        let rb = PathBuf::try_from(p.to_vec());
        check(rb.as_ref().err() == want.as_ref().err(), 2);
        let rb2 = PathBuf::try_from(p);
        check(rb2.as_ref().err() == want.as_ref().err(), 3);
        use std::os::unix::ffi::OsStrExt;
        let os = std::ffi::OsStr::from_bytes(p);
        check(Path::try_from(os).err() == want.as_ref().err().cloned(), 4);
        check(PathBuf::try_from(os.to_owned()).err() == want.as_ref().err().cloned(), 5);
        if let (Ok(a), Ok(b)) = (r, rb) {
            reach(0);
            check(eq_bytes(a.as_ref(), p) && eq_bytes(b.as_ref(), p), 6);
            check(a.is_absolute() == (!p.is_empty() && p[0] == b'/') && b.is_absolute() == a.is_absolute(), 7);
            check(b.as_path() == a && a == b && a == p, 8);
            check(eq_bytes(PathBuf::from(a).as_ref(), p), 9);
            let sp: &std::path::Path = a.into();
            check(eq_bytes(sp.as_os_str().as_bytes(), p), 10);
            let sb: std::path::PathBuf = b.into();
            check(eq_bytes(sb.as_os_str().as_bytes(), p), 11);
        } else {
            reach(1);
        }
    }
    /// params: [length]
    pub fn h_path() {
        let mut p = vec![0u8; param(0) as usize];
        fill(&mut p);
        all_conversions(&p);
    }
    /// Components around 255 bytes: "aaa/aaa...a" with `param(0)` arbitrary
    /// bytes at the end and two in front.
    pub fn h_path_long() {
        let mut p = vec![b'a'; 258];
        fill(&mut p[..2]);
        let n = 258 - param(0) as usize;
        fill(&mut p[n..]);
        all_conversions(&p);
    }

    /// A path of many components, one of them around the longest allowed.
    /// params: [components in front, behind, length of each]
    pub fn h_path_many() {
        let one = vec![b'a'; param(2) as usize];
        let mut p = Vec::new();
        for _ in 0..param(0) {
            p.extend_from_slice(&one);
            p.push(b'/');
        }
        let from = p.len();
        let len = 254 + choose(4) as usize;
        p.resize(from + len, b'b');
        let mut z = 0u8;
        fill(std::slice::from_mut(&mut z));
        p[from + len - 1] = z;
        for _ in 0..param(1) {
            p.push(b'/');
            p.extend_from_slice(&one);
        }
        let long = len - (z == b'/') as usize > 255;
        let nul = z == 0;
        let want = if nul { Err(PathError::ContainsNull) } else if long { Err(PathError::ComponentTooLong) } else { Ok(()) };
        match Path::try_from(&p[..]) {
            Ok(x) => {
                check(want.is_ok(), 1);
                reach(0);
                check(eq_bytes(x.as_ref(), &p), 2);
                let mut n = 0u64;
                for c in x.components() {
                    let Component::Normal(c) = c else { return check(false, 10) };
                    if n == param(0) {
                        check(c.as_ref().len() == len - (z == b'/') as usize, 3);
                    } else {
                        check(c.as_ref() == one, 4);
                    }
                    n += 1;
                }
                check(n == param(0) + param(1) + 1, 5);
            }
            Err(e) => {
                reach(1);
                // Which of two reasons is named first is not specified.
                check(want.is_err(), 6);
                check(e == if nul && long { e.clone() } else { want.clone().unwrap_err() }, 7);
            }
        }
        check(PathBuf::try_from(&p[..]).is_ok() == want.is_ok(), 8);
        check(PathBuf::try_from(p).is_ok() == want.is_ok(), 9);
    }

    /// params: [length of the base, of the argument]
    pub fn h_join() {
        let mut a = vec![0u8; param(0) as usize];
        let mut b = vec![0u8; param(1) as usize];
        fill(&mut a);
        fill(&mut b);
        for x in a.iter().chain(&b) {
            assume(*x != 0);
        }
        let mut want = a.clone();
        if !b.is_empty() && b[0] == b'/' {
            want = b.clone();
        } else {
            if !a.is_empty() && a[a.len() - 1] != b'/' {
                want.push(b'/');
            }
            want.extend_from_slice(&b);
        }
        let Ok(p) = Path::try_from(&a[..]) else { return check(false, 1) };
        let j = p.join(&b);
        check(eq_bytes(j.as_ref(), &want), 2);
        let mut q = PathBuf::from(p);
        q.push(&b);
        check(eq_bytes(q.as_ref(), &want), 3);
        check(eq_bytes(PathBuf::from(p).join(&b).as_ref(), &want), 4);
        reach(0);
    }

    /// params: [length]
    pub fn h_components() {
        let n = param(0) as usize;
        let mut p = vec![0u8; n];
        fill(&mut p);
        for x in &p {
            assume(*x != 0);
        }
        let Ok(path) = Path::try_from(&p[..]) else { return check(false, 1) };
        let mut it = path.components();
        let buf = PathBuf::from(path);
        let mut it2 = buf.components();
        let mut i = 0;
        let mut k = 0u64;
        if n > 0 && p[0] == b'/' {
            check(it.next() == Some(Component::RootDir), 2);
            check(it2.next() == Some(Component::RootDir), 3);
        }
        loop {
            while i < n && p[i] == b'/' {
                i += 1;
            }
            if i == n {
                break;
            }
            let s = i;
            while i < n && p[i] != b'/' {
                i += 1;
            }
            let c = &p[s..i];
            let (a, b) = (it.next(), it2.next());
            check(a == b, 4);
            match a {
                Some(Component::CurDir) => check(c == b".", 5),
                Some(Component::ParentDir) => check(c == b"..", 6),
                Some(Component::Normal(x)) => check(eq_bytes(x.as_ref(), c) && c != b"." && c != b"..", 7),
                _ => check(false, 8),
            }
            k += 1;
        }
        check(it.next().is_none() && it.next().is_none() && it2.next().is_none(), 9);
        note(0, k);
        reach(0);
    }

    fn name_ok(b: &[u8]) -> Result<(), DirEntryNameError> {
        if b.is_empty() {
            return Err(DirEntryNameError::Empty);
        }
        if b.len() > 255 {
            return Err(DirEntryNameError::TooLong);
        }
        if b.contains(&0) {
            return Err(DirEntryNameError::ContainsNull);
        }
        if b.contains(&b'/') {
            return Err(DirEntryNameError::ContainsSeparator);
        }
        Ok(())
    }
    fn name(b: &[u8]) {
        let want = name_ok(b);
        match (DirEntryName::try_from(b), &want) {
            (Ok(n), Ok(())) => {
                reach(0);
                check(eq_bytes(n.as_ref(), b), 1);
                check(n == b, 2);
                check(n.as_str().is_ok() == std::str::from_utf8(b).is_ok(), 3);
                let mut o = b.to_vec();
                o[0] ^= 1;
                check(n != o, 4);
                o[0] ^= 1;
                o.push(b'x');
                check(n != o && n != &o[..b.len() - 1], 5);
            }
            (Err(e), Err(w)) => {
                reach(1);
                check(e == *w, 6);
            }
            _ => check(false, 7),
        }
        check(Component::normal(b).is_ok() == want.is_ok(), 8);
    }
    /// params: [length]
    pub fn h_name() {
        let mut b = vec![0u8; param(0) as usize];
        fill(&mut b);
        name(&b);
    }
    /// params: [length, arbitrary bytes at the end]; one more at the start.
    pub fn h_name_long() {
        let n = param(0) as usize;
        let mut b = vec![b'a'; n];
        fill(&mut b[n - param(1) as usize..]);
        fill(&mut b[..1]);
        name(&b);
    }

    struct Rec(Vec<u8>);
    impl std::hash::Hasher for Rec {
        fn finish(&self) -> u64 {
            0
        }
        fn write(&mut self, b: &[u8]) {
            self.0.extend_from_slice(b)
        }
    }
    fn hash_of<T: std::hash::Hash>(t: &T) -> Vec<u8> {
        let mut r = Rec(Vec::new());
        t.hash(&mut r);
        r.0
    }
    fn order(a: &[u8], b: &[u8]) -> Ordering {
        for i in 0..a.len().min(b.len()) {
            if a[i] != b[i] {
                return if a[i] < b[i] { Ordering::Less } else { Ordering::Greater };
            }
        }
        a.len().cmp(&b.len())
    }

    /// Comparing paths is comparing their bytes. params: [length, length]
    pub fn h_path_cmp() {
        let mut a = vec![0u8; param(0) as usize];
        let mut b = vec![0u8; param(1) as usize];
        fill(&mut a);
        fill(&mut b);
        for x in a.iter().chain(&b) {
            assume(*x != 0);
        }
        let (Ok(p), Ok(q)) = (Path::try_from(&a[..]), Path::try_from(&b[..])) else { return check(false, 1) };
        let (pb, qb) = (PathBuf::from(p), PathBuf::from(q));
        let want = order(&a, &b);
        let same = want == Ordering::Equal;
        check((p == q) == same && (p != q) == !same, 2);
        check((pb == qb) == same && (p == qb) == same && (pb == q) == same, 3);
        check((p == b) == same && (pb == b) == same && (p == &b[..]) == same, 4);
        check(p.cmp(&q) == want && pb.cmp(&qb) == want, 5);
        check(p.partial_cmp(&q) == Some(want) && pb.partial_cmp(&qb) == Some(want), 6);
        if same {
            reach(0);
            check(hash_of(&p) == hash_of(&q) && hash_of(&pb) == hash_of(&qb), 7);
        } else {
            reach(1);
        }
        // A component equals what it stands for.
        for (c, x) in [(Component::RootDir, &b"/"[..]), (Component::CurDir, b"."), (Component::ParentDir, b"..")] {
            check((c == a) == (a == x), 8);
        }
        if let (Ok(c), Ok(d)) = (Component::normal(&a), Component::normal(&b)) {
            reach(2);
            check((c == b) == same && (c == d) == same, 9);
            check(c.cmp(&d) == want, 10);
        }
    }

    /// The same for names. params: [length, length]
    pub fn h_name_cmp() {
        let mut a = vec![0u8; param(0) as usize];
        let mut b = vec![0u8; param(1) as usize];
        fill(&mut a);
        fill(&mut b);
        let (Ok(p), Ok(q)) = (DirEntryName::try_from(&a[..]), DirEntryName::try_from(&b[..])) else { return };
        let want = order(&a, &b);
        let same = want == Ordering::Equal;
        check((p == q) == same && (p == b) == same && (q == &a[..]) == same, 1);
        check(p.cmp(&q) == want && p.partial_cmp(&q) == Some(want), 2);
        if same {
            reach(0);
            check(hash_of(&p) == hash_of(&q), 3);
        } else {
            reach(1);
        }
    }

    fn debug_of(b: &[u8]) -> Vec<u8> {
        let mut want = vec![b'"'];
        match std::str::from_utf8(b) {
            Ok(s) => want.extend(s.escape_debug().to_string().bytes()),
            Err(_) => {
                for c in b {
                    want.extend(std::ascii::escape_default(*c));
                }
            }
        }
        want.push(b'"');
        want
    }

    /// Printing. params: [fixed bytes in front, arbitrary bytes, what: 0
    /// path, 1 name, 0 text / 1 debug form]
    pub fn h_path_fmt() {
        let (at, n) = (param(0) as usize, param(1) as usize);
        let mut a = b"/q\xc3\xa9"[4 - at..].to_vec();
        a.resize(at + n, 0);
        fill(&mut a[at..]);
        a.push(b'z');
        let text = std::str::from_utf8(&a);
        reach(text.is_err() as u32);
        let want = if param(3) == 1 { debug_of(&a) } else { String::from_utf8_lossy(&a).into_owned().into_bytes() };
        let same = |s: String| eq_bytes(s.as_bytes(), &want);
        if param(2) == 0 {
            let Ok(p) = Path::try_from(&a[..]) else { return };
            let b = PathBuf::from(p);
            if param(3) == 1 {
                check(same(format!("{p:?}")) && same(format!("{b:?}")), 1);
            } else {
                check(p.to_str().ok() == text.ok() && b.to_str().ok() == text.ok(), 3);
                check(same(format!("{}", p.display())) && same(format!("{}", b.display())), 4);
            }
        } else {
            let Ok(p) = DirEntryName::try_from(&a[..]) else { return };
            if param(3) == 1 {
                check(same(format!("{p:?}")), 6);
                let mut w = b"Normal(".to_vec();
                w.extend_from_slice(&want);
                w.push(b')');
                check(eq_bytes(format!("{:?}", Component::Normal(p)).as_bytes(), &w), 9);
            } else {
                check(p.as_str().ok() == text.ok(), 7);
                check(same(format!("{}", p.display())), 8);
            }
        }
    }

    /// The conversions from strings and arrays. params: []
    pub fn h_path_from() {
        let mut a = [0u8; 3];
        fill(&mut a);
        let want = path_ok(&a);
        let e = want.as_ref().err();
        check(Path::try_from(&a).as_ref().err() == e && PathBuf::try_from(&a).as_ref().err() == e, 1);
        let name = name_ok(&a);
        check(DirEntryName::try_from(&a).as_ref().err() == name.as_ref().err(), 2);
        for x in &a {
            assume(*x < 0x80);
        }
        let s = unsafe { std::str::from_utf8_unchecked(&a) };
        let st = s.to_string();
        check(Path::try_from(s).as_ref().err() == e && PathBuf::try_from(s).as_ref().err() == e, 3);
        check(Path::try_from(&st).as_ref().err() == e && PathBuf::try_from(&st).as_ref().err() == e, 4);
        check(PathBuf::try_from(st.clone()).as_ref().err() == e, 5);
        check(DirEntryName::try_from(s).as_ref().err() == name.as_ref().err(), 6);
        let sp = std::path::Path::new(s);
        check(Path::try_from(sp).as_ref().err() == e && PathBuf::try_from(sp.to_owned()).as_ref().err() == e, 7);
        if e.is_none() {
            reach(0);
            check(Path::new(s) == a && PathBuf::new(s) == a && Path::new(&a) == a, 8);
            let b = PathBuf::new(&a);
            check(Path::try_from(&b).is_ok_and(|p| p == a) && Path::try_from(sp).is_ok_and(|p| p == a), 9);
            check(PathBuf::try_from(sp.to_owned()).is_ok_and(|p| p == a) && PathBuf::try_from(st).is_ok_and(|p| p == a), 10);
        } else {
            reach(1);
        }
    }
}
