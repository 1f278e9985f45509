//! Seeds to scenarios.

use crate::rng::Rng;
use crate::scenario::{Cfg, Op, Pre, Scn, K};

type W = (K, u32);

fn base() -> Vec<W> {
    vec![
        (K::Create, 10),
        (K::OpenFile, 2),
        (K::OpenWriter, 7),
        (K::Write, 18),
        (K::Flush, 4),
        (K::Close, 6),
        (K::OpenReader, 4),
        (K::Read, 8),
        (K::ReadAll, 3),
        (K::Rename, 3),
        (K::Delete, 5),
        (K::DropHandle, 1),
        (K::Dir, 1),
        (K::Validate, 1),
        (K::Record, 1),
        (K::Info, 1),
        (K::SetName, 1),
        (K::Reinit, 1),
    ]
}

fn with(mut v: Vec<W>, more: &[W]) -> Vec<W> {
    for (k, w) in more {
        v.retain(|x| x.0 != *k);
        v.push((*k, *w));
    }
    v
}

pub fn weights(prop: &str) -> Vec<W> {
    use K::*;
    match prop {
        "C01" => with(base(), &[(Reopen, 1), (DropDisk, 1), (SetEntry, 1)]),
        "C02" => with(base(), &[(Delete, 9), (Validate, 2), (Format, 1), (Reopen, 1), (SetEntry, 1)]),
        "C03" => with(base(), &[(Write, 24), (Create, 12), (Delete, 7), (ReadAll, 4)]),
        "C04" => with(base(), &[(Flush, 9), (Power, 9), (Fault, 2), (Heal, 1), (Retry, 2), (Validate, 0), (Reinit, 0), (SetEntry, 1), (Format, 1)]),
        "C05" => with(base(), &[(Kill, 4), (Delete, 8), (Rename, 5), (Create, 12), (Validate, 0), (Reinit, 0), (SetEntry, 2)]),
        "C06" => with(base(), &[(Reopen, 7), (Reinit, 4), (DropDisk, 4), (SetName, 2), (Format, 1), (Close, 9), (SetEntry, 1), (IterOpen, 1), (IterNext, 2)]),
        "C07" => with(
            base(),
            &[(Fault, 12), (Retry, 7), (Heal, 2), (Validate, 1), (SetName, 1), (SetEntry, 3), (IterOpen, 1), (IterNext, 2), (Reinit, 3), (Delete, 7), (Rename, 5), (Create, 12), (BadName, 4), (BadRecord, 1), (Record, 3), (Info, 2), (OpenExport, 2), (Export, 4)],
        ),
        "C08" => with(
            base(),
            &[(BadName, 9), (BadKind, 4), (BadRecord, 3), (BadSector, 4), (BadFormat, 2), (BadImage, 2), (Unformatted, 1)],
        ),
        "C09" => with(
            base(),
            &[
                (Format, 2), (SetName, 2), (RawWrite, 3), (RawRead, 2), (FlipBam, 2), (BadName, 2), (Reopen, 3), (Reinit, 2),
                (OpenExport, 3), (Fault, 1), (Heal, 1), (Create, 5), (Rename, 4), (Delete, 5), (Write, 12), (OpenWriter, 9),
                (Validate, 2), (Record, 3), (Info, 2),
            ],
        ),
        "C10" => with(
            base(),
            &[
                (Corrupt, 22), (CorruptAt, 8), (Format, 1), (SetName, 1), (RawRead, 2), (FlipBam, 1), (Reopen, 2), (Reinit, 3),
                (OpenExport, 4), (Export, 6), (Create, 7), (Rename, 3), (Delete, 5), (Write, 12), (OpenWriter, 9), (Dir, 8),
                (Validate, 3), (Record, 6), (Info, 3), (ReadAll, 6),
            ],
        ),
        "C15" => vec![
            (Format, 10), (CreateImage, 4), (Create, 8), (Delete, 3), (Rename, 2), (SetName, 2), (Corrupt, 6), (RawWrite, 3),
            (Reinit, 1), (Reopen, 1), (Fault, 5), (Heal, 1),
        ],
        "C11" => with(base(), &[(Validate, 8), (FlipBam, 4), (CrossLink, 3), (BreakChain, 3)]),
        "C12" => with(base(), &[(Record, 14), (Info, 8), (BadRecord, 2), (BadKind, 2), (Delete, 4), (Rename, 5)]),
        "C13" => with(base(), &[(OpenExport, 8), (Export, 30), (Info, 1), (Delete, 3)]),
        "C14" => with(base(), &[(Create, 20), (Delete, 10), (Rename, 8), (Dir, 8), (Write, 6), (Format, 1), (SetEntry, 4), (IterOpen, 3), (IterNext, 7), (BadName, 3)]),
        "C16" => with(base(), &[(Write, 24), (Delete, 7), (SetName, 0)]),
        "C17" => vec![
            (Create, 12), (Write, 10), (ReadAll, 7), (OpenExport, 3), (Rename, 4), (Delete, 6), (Dir, 3), (Validate, 2), (Info, 1),
            (FlipBam, 2), (RawRead, 2), (Format, 1), (BadName, 4), (Kill, 2), (Fault, 2),
        ],
        "C18" => with(base(), &[(RawWrite, 4), (RawRead, 3), (SetName, 3), (SetEntry, 3), (Delete, 7), (Rename, 5)]),
        _ => base(),
    }
}

pub fn length(rng: &mut Rng, big: bool) -> u32 {
    // Now and then as much as a disk holds.
    if big && rng.chance(1, 200) {
        return 40_000 + rng.skewed(800_000) as u32;
    }
    match rng.below(10) {
        0 => *rng.pick(&[1u32, 2, 253, 254, 255, 256, 507, 508, 509, 761, 762, 763]),
        1 => 254 * rng.range(1, 6) as u32 + rng.below(3) as u32 - 1,
        2 | 3 => 1 + rng.below(40) as u32,
        4 if big => 1 + rng.skewed(40_000) as u32,
        _ => 1 + rng.skewed(3000) as u32,
    }
}

fn chunk(rng: &mut Rng, len: u32) -> u32 {
    let c = match rng.below(8) {
        0 => 1,
        1 => *rng.pick(&[253u32, 254, 255, 256]),
        2 => 1 + rng.below(40) as u32,
        3 => 1 + rng.below(600) as u32,
        _ => 0,
    };
    if c > 0 && len / c > 400 {
        0
    } else {
        c
    }
}

pub fn args(rng: &mut Rng, k: K, prop: &str) -> Op {
    use K::*;
    let r = |rng: &mut Rng| rng.below(1000) as u32;
    let a = match k {
        Create => {
            let mut flags = 0;
            if rng.chance(1, 8) {
                flags |= 1;
            }
            if rng.chance(2, 3) {
                flags |= 2;
            }
            if rng.chance(1, 4) {
                flags |= 4;
            }
            let len = if prop == "C17" { length(rng, true) - rng.below(2) as u32 } else { 0 };
            [rng.below(64) as u32, rng.below(8) as u32, flags, len]
        }
        OpenWriter | OpenReader | Delete | OpenExport => [r(rng), rng.below(2) as u32, 0, 0],
        Write => {
            let len = length(rng, prop != "C05");
            [r(rng), len, if prop == "C17" { rng.below(2) as u32 } else { chunk(rng, len) }, 0]
        }
        Read => {
            let n = match rng.below(8) {
                0 => *rng.pick(&[1u32, 253, 254, 255, 256, 508]),
                1 => 100_000,
                2 => 0,
                _ => 1 + rng.skewed(2000) as u32,
            };
            [r(rng), n, 0, 0]
        }
        Export => {
            let n = match rng.below(8) {
                0 => *rng.pick(&[1u32, 253, 254, 255, 256, 508]),
                1 | 2 => 1 + rng.below(60) as u32,
                3 => rng.skewed(100_000) as u32,
                4 => 0,
                _ => 1 + rng.skewed(1200) as u32,
            };
            [r(rng), n, 0, 0]
        }
        ReadAll => [r(rng), *rng.pick(&[0u32, 0, 13, 254, 255, 300, crate::world::AS_RECORD as u32]), rng.below(2) as u32, 0],
        Rename => [r(rng), rng.below(64) as u32, if rng.chance(1, 6) { rng.below(4) as u32 } else { 0 }, 0],
        Record => [r(rng), r(rng), rng.below(2) as u32, 0],
        Format | SetName => [rng.below(64) as u32, r(rng), 0, 0],
        IterNext => [r(rng), if rng.chance(1, 4) { 300 } else { 1 + rng.skewed(30) as u32 }, 0, 0],
        Reinit => [r(rng), 0, 0, 0],
        Reopen | DropDisk => [rng.below(8) as u32 + 8 * rng.below(4) as u32, 0, 0, 0],
        RawWrite => [rng.below(4000) as u32, rng.below(256) as u32, 0, 0],
        RawRead => [rng.below(4000) as u32, 0, 0, 0],
        Fault => {
            let mask = if prop == "C04" {
                4
            } else {
                *rng.pick(&[1u32, 2, 2, 2, 3, 4, 4, 6, 7])
            };
            let after = if prop == "C15" && mask != 4 { rng.skewed(4000) as u32 } else if mask == 4 { rng.skewed(3) as u32 } else { rng.skewed(40) as u32 };
            let burst = match rng.below(6) {
                0 => 1 + rng.below(4) as u32,
                1 => 200,
                _ => 1,
            };
            [mask, after, burst, 0]
        }
        Kill => [rng.below(64) as u32, rng.below(2) as u32, 0, 0],
        Power => [rng.next() as u32 >> 8, rng.chance(1, 4) as u32, 0, 0],
        BadName | BadKind | BadRecord | BadSector | BadFormat | BadImage | Unformatted => {
            [r(rng), r(rng), r(rng), r(rng)]
        }
        Corrupt | CorruptAt | FlipBam | CrossLink | BreakChain | Cli | CreateImage => {
            [rng.next() as u32 >> 4, rng.next() as u32 >> 4, rng.next() as u32 >> 4, rng.next() as u32 >> 4]
        }
        _ => [r(rng), r(rng), 0, 0],
    };
    let a = match k {
        ReadAll | OpenExport | Dir | Validate | Info | RawRead if prop == "C17" => [r(rng), r(rng), rng.below(16) as u32, 0],
        _ => a,
    };
    Op { k, a }
}

pub fn geometry(rng: &mut Rng) -> u32 {
    const W: [u32; 8] = [30, 8, 8, 4, 20, 4, 10, 3];
    rng.weighted(&W) as u32
}

pub fn config(rng: &mut Rng, prop: &str) -> Cfg {
    let mut c = Cfg { geo: geometry(rng), ..Default::default() };
    c.geos = rng.chance(1, 3) as u32;
    c.backend = match prop {
        "C06" => 1,
        "C01" | "C02" | "C04" | "C05" | "C07" => rng.chance(1, 5) as u32,
        _ => rng.chance(1, 12) as u32,
    };
    c.frag = if rng.chance(1, 2) { 1 + rng.below(1000) as u32 } else { 0 };
    if prop == "C09" {
        c.flags = rng.below(8) as u32;
        c.start = [0u32, 0, 0, 0, 0, 0, 1, 2][rng.below(8) as usize];
    }
    if prop == "C17" {
        c.flags = 8 + rng.below(8) as u32;
        c.start = rng.chance(1, 6) as u32;
    }
    if prop == "C10" || prop == "C15" {
        c.flags = rng.skewed(15) as u32;
        c.start = [0u32, 0, 0, 0, 0, 0, 0, 1, 2, 3, 3, 4][rng.below(12) as usize];
        c.backend = rng.chance(1, 2) as u32;
    }
    let fill = match prop {
        "C03" => 9,
        "C16" => 5,
        "C13" => 0,
        _ => 2,
    };
    if rng.chance(fill, 10) {
        c.fill = 1 + rng.skewed(if prop == "C16" { 60 } else { 16 }) as u32;
    }
    let dirfill = match prop {
        "C14" => 5,
        "C03" => 2,
        "C05" | "C16" | "C18" => 2,
        _ => 1,
    };
    if rng.chance(dirfill, 10) {
        let max = if c.geo >= 6 { 296 } else { 144 };
        c.dirfill = match rng.below(4) {
            0 => rng.below(max) as u32,
            1 => max as u32 - 1 - rng.skewed(10) as u32,
            2 => 8 * (1 + rng.below(4) as u32) - rng.below(2) as u32,
            _ => rng.below(20) as u32,
        };
    }
    c
}

pub fn initial(rng: &mut Rng, prop: &str, geos: bool) -> Vec<Pre> {
    let n = match prop {
        "C09" | "C10" | "C11" | "C12" | "C13" | "C17" => 1 + rng.below(6),
        _ => rng.skewed(6),
    };
    let mut v = vec![];
    for _ in 0..n {
        let kind = match prop {
            "C12" | "C11" | "C10" => *rng.pick(&[3u32, 3, 4, 5, 5, 8, 0, 9]),
            "C13" => *rng.pick(&[4u32, 5, 5, 5, 8, 8]),
            "C14" | "C08" | "C18" if geos && rng.chance(1, 4) => 8,
            _ => rng.below(12) as u32,
        };
        let kind = if kind == 8 && !geos { 5 } else { kind };
        let size = match rng.below(5) {
            0 => *rng.pick(&[0u32, 1, 253, 254, 255, 508]),
            1 => rng.skewed(35_000) as u32,
            _ => rng.skewed(3000) as u32,
        };
        let size = match kind {
            // Relative files with several side sectors.
            3 if rng.chance(1, 20) => (1 + rng.below(6)) as u32 * 120 * 254,
            3 if rng.chance(1, 40) => ((1 + rng.below(5)) as u32 * 120 + 1) * 254,
            3 if rng.chance(1, 10) => 30_000 + rng.below(150_000) as u32,
            // Records of more blocks than an export can describe.
            5 if matches!(prop, "C12" | "C13") && rng.chance(1, 16) => 60_000 + rng.below(80_000) as u32,
            // Files that take up most of a disk.
            0 | 1 | 2 | 6 | 7 if prop != "C10" && rng.chance(1, 40) => 100_000 + rng.below(720_000) as u32,
            _ => size,
        };
        v.push(Pre { kind, size, x: rng.below(10_000) as u32 });
    }
    v
}

/// Operations with some kinds left out and some favoured in this run.
pub fn operations(rng: &mut Rng, prop: &str, n: usize) -> Vec<Op> {
    let mut w = weights(prop);
    for x in w.iter_mut() {
        match rng.below(8) {
            0 => x.1 = 0,
            1 => x.1 *= 4,
            _ => {}
        }
    }
    // Something must be there to work with.
    for k in [K::Create, K::Write, K::OpenWriter] {
        if let Some(x) = w.iter_mut().find(|x| x.0 == k) {
            x.1 = x.1.max(3);
        }
    }
    let ws: Vec<u32> = w.iter().map(|x| x.1).collect();
    let mut ops = vec![];
    while ops.len() < n {
        let k = w[rng.weighted(&ws)].0;
        if k == K::Power || k == K::Fault || k == K::Kill {
            ops.push(args(rng, k, prop));
            // Bias: something is in flight when it strikes.
            if rng.chance(1, 2) {
                let k2 = if prop == "C07" && rng.chance(1, 4) {
                    *rng.pick(&[K::Validate, K::Dir, K::Record, K::ReadAll, K::Info, K::Read, K::BadName, K::BadName])
                } else {
                    *rng.pick(&[K::Write, K::Flush, K::Create, K::Delete, K::Rename, K::Close, K::OpenWriter])
                };
                ops.push(args(rng, k2, prop));
                if k == K::Fault && rng.chance(1, 2) {
                    ops.push(args(rng, K::Retry, prop));
                }
            }
            continue;
        }
        if prop == "C07" && rng.chance(1, 12) {
            // A read error at any point of a long reading operation.
            let w = rng.below(4);
            if w < 2 {
                ops.push(args(rng, K::OpenExport, prop));
                if w == 0 {
                    ops.push(args(rng, K::Export, prop));
                }
            }
            ops.push(Op { k: K::Fault, a: [1, rng.skewed(60) as u32, 1, 0] });
            let k2 = if w < 2 { K::Export } else { *rng.pick(&[K::Record, K::ReadAll, K::Info, K::Read]) };
            let mut op = args(rng, k2, prop);
            if w < 2 && rng.chance(3, 4) {
                op.a[1] = 100_000;
            }
            ops.push(op);
            continue;
        }
        let op = args(rng, k, prop);
        // Runs of the same operation on the same object.
        let repeat = if rng.chance(1, 10) { 1 + rng.below(4) } else { 1 };
        for _ in 0..repeat {
            ops.push(op);
        }
    }
    ops
}

/// Workload, everything closed, then rounds of damage and validation; several times.
fn validations(rng: &mut Rng, n: usize) -> Vec<Op> {
    let mut ops = vec![];
    while ops.len() < n {
        let k = rng.below(12) as usize;
        ops.extend(operations(rng, "C11", k));
        for _ in 0..6 {
            ops.push(Op::new(K::Close, 0, 0, 0, 0));
        }
        for _ in 0..1 + rng.below(8) {
            for _ in 0..rng.below(4) {
                let k = *rng.pick(&[K::FlipBam, K::FlipBam, K::CrossLink, K::BreakChain, K::BreakChain]);
                ops.push(args(rng, k, "C11"));
            }
            ops.push(Op::new(K::Validate, 0, 0, 0, 0));
        }
    }
    ops
}

pub fn scenario(prop: &str, seed: u64, thorough: bool) -> Scn {
    let mut rng = Rng::new(seed);
    let cfg = config(&mut rng, prop);
    let pre = initial(&mut rng, prop, cfg.geos != 0);
    let n = match rng.below(4) {
        _ if prop == "C17" => 4 + rng.below(if thorough { 60 } else { 26 }) as usize,
        _ if prop == "C15" => 2 + rng.below(if thorough { 60 } else { 24 }) as usize,
        0 => 4 + rng.below(8) as usize,
        1 | 2 => 12 + rng.below(40) as usize,
        _ => 40 + rng.below(if thorough { 260 } else { 80 }) as usize,
    };
    let ops = if prop == "C11" { validations(&mut rng, n) } else { operations(&mut rng, prop, n) };
    Scn { prop: prop.to_string(), seed, cfg, pre, ops }
}
