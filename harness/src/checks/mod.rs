//! One check per property.
use crate::conv::*;
use crate::phys::*;
use crate::util::*;
use barbarosa::cube_n::{AxisMove, Cube2, Cube3, Cube4, Cube5, Cube6, Cube7, CubeN};
use barbarosa::generic::{Cube, Movable};
use rand::Rng;

mod c01;
mod c02;
mod c03;
mod c04;
mod c05;
mod c06;
mod c07;
mod c08;
mod c09;
mod c10;
mod c11;
mod c12;
mod c13;
mod c14;
mod c15;
mod c16;
mod c17;
mod c18;
mod c19;
mod c20;
mod c21;
mod c22;
mod c23;
mod c24;

type Check = fn(&mut Ctx);

pub fn find(id: &str) -> Option<Check> {
    Some(match id {
        "C01" => c01::check,
        "C02" => c02::check,
        "C03" => c03::check,
        "C04" => c04::check,
        "C05" => c05::check,
        "C06" => c06::check,
        "C07" => c07::check,
        "C08" => c08::check,
        "C09" => c09::check,
        "C10" => c10::check,
        "C11" => c11::check,
        "C12" => c12::check,
        "C13" => c13::check,
        "C14" => c14::check,
        "C15" => c15::check,
        "C16" => c16::check,
        "C17" => c17::check,
        "C18" => c18::check,
        "C19" => c19::check,
        "C20" => c20::check,
        "C21" => c21::check,
        "C22" => c22::check,
        "C23" => c23::check,
        "C24" => c24::check,
        _ => return None,
    })
}


/// A cube of any size
pub trait AnyCube: Cube + CubeN + Movable<AxisMove> + Send + 'static {
    const S: usize;
    /// deepest layer turn of the cube's own move type
    const D: u32;
    fn mv(&mut self, m: &Mv);
    /// The same turn given as a move of a narrower type
    fn mv_narrow(&mut self, m: &Mv, how: usize);
    /// all stickers, where the pieces are public and tell all
    fn stickers(&self) -> Option<Phys> {
        None
    }
    fn word(&mut self, w: &[Mv]) {
        for m in w {
            self.mv(m);
        }
    }
    fn after(w: &[Mv]) -> Self {
        let mut c = Self::SOLVED;
        c.word(w);
        c
    }
}

macro_rules! any_cube {
    ($($c:ty, $n:literal, $d:literal, [$($narrow:literal)*] $(, $phys:path)?);*) => {$(
        impl AnyCube for $c {
            const S: usize = $n;
            const D: u32 = $d;
            fn mv(&mut self, m: &Mv) {
                self.apply(&m.wide::<$d>());
            }
            fn mv_narrow(&mut self, m: &Mv, how: usize) {
                if m.depth == 0 && how % 2 == 0 {
                    return self.apply(&m.axis_move());
                }
                $(if m.depth <= $narrow {
                    return self.apply(&m.wide::<$narrow>());
                })*
                self.mv(m)
            }
            $(fn stickers(&self) -> Option<Phys> {
                match $phys(self) {
                    Some(p) => Some(p),
                    None => std::panic::panic_any(format!("VIOL: not an arrangement of pieces: {self:?}")),
                }
            })?
        }
    )*};
}
any_cube!(Cube2, 2, 0, [], phys2; Cube3, 3, 0, [], phys3; Cube4, 4, 1, [0]; Cube5, 5, 1, [0]; Cube6, 6, 2, [0 1]; Cube7, 7, 2, [0 1]);

/// Calls a generic function for every cube size
#[macro_export]
macro_rules! each_cube {
    ($f:ident($($arg:expr),*)) => {
        $f::<barbarosa::cube_n::Cube2>($($arg),*);
        $f::<barbarosa::cube_n::Cube3>($($arg),*);
        $f::<barbarosa::cube_n::Cube4>($($arg),*);
        $f::<barbarosa::cube_n::Cube5>($($arg),*);
        $f::<barbarosa::cube_n::Cube6>($($arg),*);
        $f::<barbarosa::cube_n::Cube7>($($arg),*);
    };
}

/// A length that is mostly short and sometimes long
pub fn len(rng: &mut impl Rng, typical: usize, max: usize) -> usize {
    match rng.gen_range(0..10) {
        0 => rng.gen_range(0..3.min(max + 1)),
        9 => rng.gen_range(0..=max),
        _ => rng.gen_range(0..=typical.min(max)),
    }
}

pub fn child(a: &[String]) {
    match a.first().map(|s| s.as_str()) {
        Some("c15-init") => c15::child_init(),
        #[cfg(barbarosa_verif)]
        Some("c15-gen") => c15::child_gen(&a[1]),
        Some("c16-init") => c16::child_init(),
        Some("c16-threads") => c16::child_threads(&a[1..]),
        Some("c22-build") => c22::child_build(),
        Some("c24-build") => c24::child_build(),
        Some("c16-op") => c16::child_op(&a[1..]),
        _ => std::process::exit(2),
    }
}
