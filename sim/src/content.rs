//! File contents are a function of (file uid, position), so every byte read is attributable.

use crate::rng::mix;

pub fn byte(uid: u32, pos: usize) -> u8 {
    let w = mix(((uid as u64) << 32) ^ (pos / 8) as u64);
    (w >> ((pos % 8) * 8)) as u8
}

pub fn bytes(uid: u32, from: usize, len: usize) -> Vec<u8> {
    let mut v = Vec::with_capacity(len);
    let mut pos = from;
    while v.len() < len {
        let w = mix(((uid as u64) << 32) ^ (pos / 8) as u64);
        let mut k = pos % 8;
        while k < 8 && v.len() < len {
            v.push((w >> (k * 8)) as u8);
            k += 1;
            pos += 1;
        }
    }
    v
}

/// Position of the first byte differing from the content at `from`, if any.
pub fn mismatch(uid: u32, from: usize, data: &[u8]) -> Option<usize> {
    let want = bytes(uid, from, data.len());
    if want == data {
        None
    } else {
        want.iter().zip(data).position(|(a, b)| a != b).map(|i| from + i)
    }
}

/// The names operations use.
pub fn name(index: u32) -> Vec<u8> {
    match index % 64 {
        0 => b"A".to_vec(),
        1 => b"B".to_vec(),
        2 => b"AB".to_vec(),
        3 => b"SIXTEENCHARNAMES".to_vec(),
        4 => b"SIXTEENCHARNAMET".to_vec(),
        5 => b"WITH SPACE ".to_vec(),
        6 => vec![b'P', 0xA0, b'Q'],
        7 => vec![b'P', 0xA0, b'R'],
        8 => vec![0xC1, 0xC2, 0xDB],
        9 => b"a".to_vec(),
        10 => b"*".to_vec(),
        11 => b"A,S".to_vec(),
        12 => vec![0x01, 0xFF, 0x00, 0x7F],
        13 => b"FIFTEENCHARNAME".to_vec(),
        n => format!("FILE{:02}", n).into_bytes(),
    }
}
