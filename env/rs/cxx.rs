// Stand-in for the Rust side of the cxx crate (see bin/minicxx.py): every call
// crosses the bridge as bytes.
use std::fmt;
use std::marker::PhantomData;
use std::ops::Deref;
use std::pin::Pin;

pub mod wire {
    pub struct Reader {
        p: *const u8,
        left: usize,
    }
    impl Reader {
        pub fn new(p: *const u8, n: usize) -> Reader {
            Reader { p, left: n }
        }
        fn take(&mut self, n: usize) -> &[u8] {
            assert!(n <= self.left);
            if n == 0 {
                return &[];
            }
            let s = unsafe { std::slice::from_raw_parts(self.p, n) };
            self.p = unsafe { self.p.add(n) };
            self.left -= n;
            s
        }
    }
    pub trait Wire {
        fn put(&self, w: &mut Vec<u8>);
        fn get(r: &mut Reader) -> Self;
    }
    macro_rules! plain {
        ($($t:ty),*) => {$(
            impl Wire for $t {
                fn put(&self, w: &mut Vec<u8>) { w.extend_from_slice(&self.to_ne_bytes()); }
                fn get(r: &mut Reader) -> Self { <$t>::from_ne_bytes(r.take(std::mem::size_of::<$t>()).try_into().unwrap()) }
            }
        )*};
    }
    plain!(f32, f64, i8, i16, i32, i64, isize, u8, u16, u32, u64, usize);
    impl Wire for bool {
        fn put(&self, w: &mut Vec<u8>) {
            w.push(*self as u8);
        }
        fn get(r: &mut Reader) -> Self {
            r.take(1)[0] != 0
        }
    }
    impl Wire for String {
        fn put(&self, w: &mut Vec<u8>) {
            (self.len() as u64).put(w);
            w.extend_from_slice(self.as_bytes());
        }
        fn get(r: &mut Reader) -> Self {
            let n = u64::get(r) as usize;
            String::from_utf8_lossy(r.take(n)).into_owned()
        }
    }
    impl<T: Wire> Wire for Vec<T> {
        fn put(&self, w: &mut Vec<u8>) {
            (self.len() as u64).put(w);
            for x in self {
                x.put(w);
            }
        }
        fn get(r: &mut Reader) -> Self {
            let n = u64::get(r);
            (0..n).map(|_| T::get(r)).collect()
        }
    }
}

pub trait Opaque {
    fn drop_native(p: *mut u8);
}

pub struct UniquePtr<T: Opaque> {
    p: *mut T,
    _t: PhantomData<T>,
}
impl<T: Opaque> UniquePtr<T> {
    pub fn null() -> Self {
        UniquePtr { p: std::ptr::null_mut(), _t: PhantomData }
    }
    /// # Safety
    /// p is null or was released by the native side.
    pub unsafe fn from_raw(p: *mut T) -> Self {
        UniquePtr { p, _t: PhantomData }
    }
    pub fn is_null(&self) -> bool {
        self.p.is_null()
    }
    pub fn as_ref(&self) -> Option<&T> {
        unsafe { self.p.as_ref() }
    }
    pub fn as_mut(&mut self) -> Option<Pin<&mut T>> {
        unsafe { self.p.as_mut().map(|x| Pin::new_unchecked(x)) }
    }
    pub fn pin_mut(&mut self) -> Pin<&mut T> {
        self.as_mut().expect("called pin_mut on a null UniquePtr")
    }
    pub fn into_raw(self) -> *mut T {
        let p = self.p;
        std::mem::forget(self);
        p
    }
}
impl<T: Opaque> Deref for UniquePtr<T> {
    type Target = T;
    fn deref(&self) -> &T {
        self.as_ref().expect("called deref on a null UniquePtr")
    }
}
impl<T: Opaque> Drop for UniquePtr<T> {
    fn drop(&mut self) {
        if !self.p.is_null() {
            T::drop_native(self.p as *mut u8);
        }
    }
}

#[derive(Debug)]
pub struct Exception {
    what: Box<str>,
}
impl Exception {
    pub fn new(s: String) -> Exception {
        Exception { what: s.into_boxed_str() }
    }
    pub fn what(&self) -> &str {
        &self.what
    }
}
impl fmt::Display for Exception {
    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
        f.write_str(&self.what)
    }
}
impl std::error::Error for Exception {}

type Native = unsafe extern "C" fn(*mut u8, *const u8, usize, *mut *mut u8, *mut usize) -> i32;
extern "C" {
    fn minicxx_free(p: *mut u8);
}
pub fn call(f: Native, me: *mut u8, w: &[u8]) -> (bool, Vec<u8>) {
    let mut out = std::ptr::null_mut();
    let mut n = 0;
    unsafe {
        let failed = f(me, w.as_ptr(), w.len(), &mut out, &mut n);
        let v = std::slice::from_raw_parts(out, n).to_vec();
        minicxx_free(out);
        (failed != 0, v)
    }
}
