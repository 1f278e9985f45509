//! A scenario is one complete description of a simulated run: configuration, initial disk and the
//! list of operations and faults.  It is what a seed expands to, what is minimised, and what a
//! replay file contains.

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub struct Op {
    pub k: K,
    pub a: [u32; 4],
}

macro_rules! kinds {
    ($($name:ident),* $(,)?) => {
        #[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
        pub enum K { $($name),* }
        impl K {
            pub const ALL: &'static [K] = &[$(K::$name),*];
            pub fn name(self) -> &'static str {
                match self { $(K::$name => stringify!($name)),* }
            }
        }
    };
}

kinds! {
    // Files.  Handles and files are chosen by index modulo the number available.
    Create,      // name, type, flags: 1 = padded name, 2 = open a writer, 4 = keep the handle
    OpenFile,    // file: keep a handle
    OpenWriter,  // file, 1 = from a kept handle if there is one
    Write,       // writer, length, chunk (0 = one call)
    Flush,       // writer
    Close,       // writer
    OpenReader,  // file, 1 = from a kept handle if there is one
    Read,        // reader, length
    ReadAll,     // file, chunk
    Rename,      // file, name
    Delete,      // file, 1 = from a kept handle if there is one
    DropHandle,  // handle
    SetEntry,    // file, variant: write back its entry with other flags or another type
    IterOpen,    // start listing the directory
    IterNext,    // iterator, number of entries
    // Special files.
    Record,      // special file, index
    Info,        // special file
    OpenExport,  // special file
    Export,      // export reader, length
    // Disk.
    Dir,
    Validate,
    Format,      // name, id
    SetName,     // name
    Reinit,
    Reopen,      // 0 = by extension, 1 = upper case extension, 2 = by size, +4 = read-only look first
    DropDisk,    // drop the disk before its writers, then close them, then reopen
    RawWrite,    // sector index among the free ones, fill
    RawRead,     // sector index
    // Requests that must be refused.
    BadName,     // variant, name
    BadKind,     // special file, variant
    BadRecord,   // special file, offset beyond the end
    BadSector,   // variant, location
    BadFormat,   // variant
    BadImage,    // variant
    Unformatted, // variant
    // Faults.
    Fault,       // mask (1 read, 2 write, 4 sync), after n accesses, burst
    Heal,
    Retry,       // stop the faults and repeat the operation that failed
    Kill,        // at which sector write of the next operation, 1 = continue from there
    Power,       // seed, 1 = continue from there
    Corrupt,     // sector index (0.. dir/bam biased), offset, value, mode
    CorruptAt,   // after n accesses of the next operation: sector, offset, value
    // Validation targets.
    FlipBam,     // sector
    CrossLink,   // file, position, other file
    BreakChain,  // file, position, variant
    // Command line.
    Cli,         // command, args
    CreateImage, // variant
}

impl Op {
    pub fn new(k: K, a: u32, b: u32, c: u32, d: u32) -> Op {
        Op { k, a: [a, b, c, d] }
    }
}

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub struct Pre {
    pub kind: u32,
    pub size: u32,
    pub x: u32,
}

#[derive(Clone, PartialEq, Eq, Hash, Debug, Default)]
pub struct Cfg {
    /// Index into geo::GEOS.
    pub geo: u32,
    pub geos: u32,
    /// 0 = memory, 1 = mapped file.
    pub backend: u32,
    /// Leave only this many data sectors free (plus one; 0 = no filling).
    pub fill: u32,
    /// Number of extra one-sector files to fill the directory.
    pub dirfill: u32,
    /// Seed of the sector placement of the initial files (0 = drive order).
    pub frag: u32,
    /// Initial contents: 0 = formatted, 1 = blank, 2 = random bytes.
    pub start: u32,
    /// Property specific switches.
    pub flags: u32,
}

#[derive(Clone, PartialEq, Eq, Hash, Debug)]
pub struct Scn {
    pub prop: String,
    pub seed: u64,
    pub cfg: Cfg,
    pub pre: Vec<Pre>,
    pub ops: Vec<Op>,
}

impl Scn {
    pub fn to_text(&self) -> String {
        let c = &self.cfg;
        let mut s = format!("property {}\nseed {}\n", self.prop, self.seed);
        s += &format!(
            "cfg geo={} geos={} backend={} fill={} dirfill={} frag={} start={} flags={}\n",
            c.geo, c.geos, c.backend, c.fill, c.dirfill, c.frag, c.start, c.flags
        );
        for p in &self.pre {
            s += &format!("pre {} {} {}\n", p.kind, p.size, p.x);
        }
        for o in &self.ops {
            s += &format!("op {} {} {} {} {}\n", o.k.name(), o.a[0], o.a[1], o.a[2], o.a[3]);
        }
        s
    }

    pub fn from_text(text: &str) -> Option<Scn> {
        let mut scn = Scn {
            prop: String::new(),
            seed: 0,
            cfg: Cfg::default(),
            pre: vec![],
            ops: vec![],
        };
        for line in text.lines() {
            let w: Vec<&str> = line.split_whitespace().collect();
            match w.first().copied() {
                Some("property") => scn.prop = w.get(1)?.to_string(),
                Some("seed") => scn.seed = w.get(1)?.parse().ok()?,
                Some("cfg") => {
                    for kv in &w[1..] {
                        let (k, v) = kv.split_once('=')?;
                        let v: u32 = v.parse().ok()?;
                        match k {
                            "geo" => scn.cfg.geo = v,
                            "geos" => scn.cfg.geos = v,
                            "backend" => scn.cfg.backend = v,
                            "fill" => scn.cfg.fill = v,
                            "dirfill" => scn.cfg.dirfill = v,
                            "frag" => scn.cfg.frag = v,
                            "start" => scn.cfg.start = v,
                            "flags" => scn.cfg.flags = v,
                            _ => return None,
                        }
                    }
                }
                Some("pre") => scn.pre.push(Pre {
                    kind: w.get(1)?.parse().ok()?,
                    size: w.get(2)?.parse().ok()?,
                    x: w.get(3)?.parse().ok()?,
                }),
                Some("op") => {
                    let k = *K::ALL.iter().find(|k| k.name() == *w.get(1).unwrap_or(&""))?;
                    let mut a = [0u32; 4];
                    for i in 0..4 {
                        a[i] = w.get(2 + i)?.parse().ok()?;
                    }
                    scn.ops.push(Op { k, a });
                }
                _ => {}
            }
        }
        Some(scn)
    }
}
