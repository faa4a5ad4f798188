//! Scenarios of the findings listed in /verif/known_findings.txt.

use crate::heap;
use crate::reg::{z_live, ZTok};
use crate::world::{install_hooks, sut};
use unsized_vec::UnsizedVec;

/// known F9-length | F9-drop: exit 4 if the finding still shows, 0 if not.
pub fn main(a: &[&str]) -> i32 {
    heap::init();
    install_hooks();
    heap::reset();
    crate::reg::reset();
    let mut lens = (0, 0);
    let r = sut(|| {
        let mut v: UnsizedVec<[ZTok]> = UnsizedVec::new();
        let b: Box<[ZTok]> = Box::new([ZTok::new(), ZTok::new(), ZTok::new()]);
        v.push(*b);
        lens = (v.len(), v[0].len());
        drop(v);
    });
    let fails = match a[0] {
        "F9-length" => r.is_err() || lens != (1, 3),
        "F9-drop" => r.is_err() || z_live() != 0,
        _ => return 2,
    };
    if fails {
        4
    } else {
        0
    }
}
