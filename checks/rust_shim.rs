// The user of the Rust interface: every public operation of the crate, callable
// from the harness.
use std::sync::Mutex;
use trajoptlib::{HolonomicTrajectory, Pose2d, SwerveDrivetrain, SwerveModule, SwervePathBuilder};

type Report = unsafe extern "C" fn(which: i32, handle: i64, p: *const f64, n: usize);
static REPORT: Mutex<Option<Report>> = Mutex::new(None);

fn flat(t: &HolonomicTrajectory) -> Vec<f64> {
    let mut v = vec![t.samples.len() as f64];
    for s in &t.samples {
        v.extend_from_slice(&[s.timestamp, s.x, s.y, s.heading, s.velocity_x, s.velocity_y, s.angular_velocity]);
        v.push(s.module_forces_x.len() as f64);
        v.extend_from_slice(&s.module_forces_x);
        v.push(s.module_forces_y.len() as f64);
        v.extend_from_slice(&s.module_forces_y);
    }
    v
}
fn report(which: i32, t: HolonomicTrajectory, handle: i64) {
    let v = flat(&t);
    let r = *REPORT.lock().unwrap();
    if let Some(r) = r {
        unsafe { r(which, handle, v.as_ptr(), v.len()) }
    }
}
fn callback0(t: HolonomicTrajectory, handle: i64) {
    report(0, t, handle)
}
fn callback1(t: HolonomicTrajectory, handle: i64) {
    report(1, t, handle)
}
fn callback2(t: HolonomicTrajectory, handle: i64) {
    report(2, t, handle)
}

fn doubles(p: *const f64, n: usize) -> Vec<f64> {
    if n == 0 {
        Vec::new()
    } else {
        unsafe { std::slice::from_raw_parts(p, n) }.to_vec()
    }
}

#[no_mangle]
pub extern "C" fn rs_set_report(r: Report) {
    *REPORT.lock().unwrap() = Some(r);
}
#[no_mangle]
pub extern "C" fn rs_new(by_default: i32) -> *mut SwervePathBuilder {
    Box::into_raw(Box::new(if by_default != 0 { SwervePathBuilder::default() } else { SwervePathBuilder::new() }))
}
#[no_mangle]
pub extern "C" fn rs_drop(b: *mut SwervePathBuilder) {
    unsafe { drop(Box::from_raw(b)) }
}
#[no_mangle]
pub extern "C" fn rs_cancel() {
    trajoptlib::cancel_all();
}
/// The operations in the order of checks/ffi_ops.hpp.
#[no_mangle]
pub extern "C" fn rs_call(b: *mut SwervePathBuilder, op: i32, i: usize, j: usize, xp: *const f64, xn: usize, yp: *const f64, yn: usize,
                          np: *const usize, nn: usize) {
    let b = unsafe { &mut *b };
    let x = doubles(xp, xn);
    let y = doubles(yp, yn);
    let n: Vec<usize> = if nn == 0 { Vec::new() } else { unsafe { std::slice::from_raw_parts(np, nn) }.to_vec() };
    match op {
        0 => {
            let modules = x[2..].chunks(5)
                .map(|m| SwerveModule { x: m[0], y: m[1], wheel_radius: m[2], wheel_max_angular_velocity: m[3], wheel_max_torque: m[4] })
                .collect();
            b.set_drivetrain(&SwerveDrivetrain { mass: x[0], moi: x[1], modules });
        }
        1 => b.set_bumpers(x[0], x[1]),
        2 => b.set_control_interval_counts(n),
        3 => b.pose_wpt(i, x[0], x[1], x[2]),
        4 => b.translation_wpt(i, x[0], x[1], x[2]),
        5 => b.empty_wpt(i, x[0], x[1], x[2]),
        6 => {
            let g: Vec<Pose2d> = x.chunks(3).map(|p| Pose2d { x: p[0], y: p[1], heading: p[2] }).collect();
            b.sgmt_initial_guess_points(i, &g);
        }
        7 => b.wpt_linear_velocity_direction(i, x[0]),
        8 => b.wpt_linear_velocity_max_magnitude(i, x[0]),
        9 => b.wpt_angular_velocity_max_magnitude(i, x[0]),
        10 => b.wpt_linear_acceleration_max_magnitude(i, x[0]),
        11 => b.wpt_point_at(i, x[0], x[1], x[2]),
        12 => b.sgmt_linear_velocity_direction(i, j, x[0]),
        13 => b.sgmt_linear_velocity_max_magnitude(i, j, x[0]),
        14 => b.sgmt_angular_velocity_max_magnitude(i, j, x[0]),
        15 => b.sgmt_linear_acceleration_max_magnitude(i, j, x[0]),
        16 => b.sgmt_point_at(i, j, x[0], x[1], x[2]),
        17 => b.sgmt_circle_obstacle(i, j, x[0], x[1], x[2]),
        18 => b.sgmt_polygon_obstacle(i, j, x[1..].to_vec(), y, x[0]),
        19 => b.add_progress_callback(match i {
            0 => callback0,
            1 => callback1,
            _ => callback2,
        }),
        _ => panic!("no such operation"),
    }
}
/// True: a trajectory, as numbers; false: the error, as bytes.
#[no_mangle]
pub extern "C" fn rs_generate(b: *mut SwervePathBuilder, diagnostics: i32, handle: i64,
                              out: unsafe extern "C" fn(ok: i32, p: *const u8, n: usize)) {
    let b = unsafe { &mut *b };
    match b.generate(diagnostics != 0, handle) {
        Ok(t) => {
            let v = flat(&t);
            unsafe { out(1, v.as_ptr() as *const u8, v.len()) }
        }
        Err(e) => unsafe { out(0, e.as_ptr(), e.len()) },
    }
}
