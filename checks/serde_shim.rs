// A user of the crate who keeps its structures in files: every structure built from
// and flattened to plain numbers, serialised, deserialised and copied.
use serde::{de::DeserializeOwned, Serialize};
use trajoptlib::{HolonomicTrajectory, HolonomicTrajectorySample, Pose2d, SwerveDrivetrain, SwerveModule};

struct In<'a>(&'a [f64], usize);
impl In<'_> {
    fn f(&mut self) -> f64 {
        self.1 += 1;
        self.0[self.1 - 1]
    }
    fn list<T: Flat>(&mut self) -> Vec<T> {
        let n = self.f() as usize;
        (0..n).map(|_| T::make(self)).collect()
    }
}
fn list<T: Flat>(v: &[T], o: &mut Vec<f64>) {
    o.push(v.len() as f64);
    for x in v {
        x.flat(o);
    }
}
trait Flat {
    fn make(i: &mut In) -> Self;
    fn flat(&self, o: &mut Vec<f64>);
}
impl Flat for f64 {
    fn make(i: &mut In) -> Self {
        i.f()
    }
    fn flat(&self, o: &mut Vec<f64>) {
        o.push(*self);
    }
}
macro_rules! flat {
    ($t:ident, [$($f:ident),*], [$($l:ident),*]) => {
        impl Flat for $t {
            fn make(i: &mut In) -> Self {
                $(let $f = i.f();)*
                $(let $l = i.list();)*
                $t { $($f,)* $($l,)* }
            }
            fn flat(&self, o: &mut Vec<f64>) {
                $(o.push(self.$f);)*
                $(list(&self.$l, o);)*
            }
        }
    };
}
flat!(SwerveModule, [x, y, wheel_radius, wheel_max_angular_velocity, wheel_max_torque], []);
flat!(SwerveDrivetrain, [mass, moi], [modules]);
flat!(Pose2d, [x, y, heading], []);
flat!(HolonomicTrajectorySample, [timestamp, x, y, heading, velocity_x, velocity_y, angular_velocity], [module_forces_x, module_forces_y]);
flat!(HolonomicTrajectory, [], [samples]);

type Out = unsafe extern "C" fn(text: *const u8, bytes: usize, numbers: *const f64, n: usize);
fn give(out: Out, text: &[u8], v: &[f64]) {
    unsafe { out(text.as_ptr(), text.len(), v.as_ptr(), v.len()) }
}
fn flat<T: Flat>(x: &T) -> Vec<f64> {
    let mut o = Vec::new();
    x.flat(&mut o);
    o
}

fn write<T: Flat + Serialize>(v: &[f64], how: i32, out: Out) -> i32 {
    let x = T::make(&mut In(v, 0));
    let r = match how {
        0 => serde_json::to_string(&x),
        1 => serde_json::to_string_pretty(&x),
        _ => serde_json::to_value(&x).map(|v| v.to_string()),
    };
    match r {
        Ok(s) => {
            give(out, s.as_bytes(), &flat(&x));
            0
        }
        Err(e) => {
            give(out, e.to_string().as_bytes(), &[]);
            1
        }
    }
}
fn read<T: Flat + DeserializeOwned>(text: &[u8], how: i32, out: Out) -> i32 {
    let r = match how {
        0 => serde_json::from_slice::<T>(text),
        1 => serde_json::from_reader::<_, T>(text),
        _ => serde_json::from_slice::<serde_json::Value>(text).and_then(serde_json::from_value::<T>),
    };
    match r {
        Ok(x) => {
            give(out, &[], &flat(&x));
            0
        }
        Err(e) => {
            give(out, e.to_string().as_bytes(), &[]);
            1
        }
    }
}
fn binary<T: Flat + Serialize + DeserializeOwned>(v: &[f64], out: Out) -> i32 {
    let x = T::make(&mut In(v, 0));
    let Ok(b) = bincode::serialize(&x) else { return 1 };
    match bincode::deserialize::<T>(&b) {
        Ok(y) => {
            give(out, &b, &flat(&y));
            0
        }
        Err(e) => {
            give(out, e.to_string().as_bytes(), &[]);
            2
        }
    }
}
fn copy<T: Flat + Clone>(v: &[f64], out: Out) -> i32 {
    let x = T::make(&mut In(v, 0));
    let y = x.clone();
    let before = flat(&x);
    drop(x);
    give(out, &[], &flat(&y));
    give(out, &[], &before);
    0
}

#[no_mangle]
pub unsafe extern "C" fn serde_write(kind: i32, v: *const f64, n: usize, how: i32, out: Out) -> i32 {
    let v = std::slice::from_raw_parts(v, n);
    match kind {
        0 => write::<SwerveModule>(v, how, out),
        1 => write::<SwerveDrivetrain>(v, how, out),
        2 => write::<Pose2d>(v, how, out),
        3 => write::<HolonomicTrajectorySample>(v, how, out),
        _ => write::<HolonomicTrajectory>(v, how, out),
    }
}
#[no_mangle]
pub unsafe extern "C" fn serde_read(kind: i32, text: *const u8, n: usize, how: i32, out: Out) -> i32 {
    let t = std::slice::from_raw_parts(text, n);
    match kind {
        0 => read::<SwerveModule>(t, how, out),
        1 => read::<SwerveDrivetrain>(t, how, out),
        2 => read::<Pose2d>(t, how, out),
        3 => read::<HolonomicTrajectorySample>(t, how, out),
        _ => read::<HolonomicTrajectory>(t, how, out),
    }
}
#[no_mangle]
pub unsafe extern "C" fn serde_binary(kind: i32, v: *const f64, n: usize, out: Out) -> i32 {
    let v = std::slice::from_raw_parts(v, n);
    match kind {
        0 => binary::<SwerveModule>(v, out),
        1 => binary::<SwerveDrivetrain>(v, out),
        2 => binary::<Pose2d>(v, out),
        3 => binary::<HolonomicTrajectorySample>(v, out),
        _ => binary::<HolonomicTrajectory>(v, out),
    }
}
#[no_mangle]
pub unsafe extern "C" fn serde_copy(kind: i32, v: *const f64, n: usize, out: Out) -> i32 {
    let v = std::slice::from_raw_parts(v, n);
    match kind {
        3 => copy::<HolonomicTrajectorySample>(v, out),
        _ => copy::<HolonomicTrajectory>(v, out),
    }
}
