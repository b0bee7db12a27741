//! Stand-in for the `dyn-clone` crate (not available offline): cloning of
//! trait objects through a boxed clone.
mod private {
    pub struct Private;
}
use private::Private;

/// Object-safe cloning.
pub trait DynClone {
    #[doc(hidden)]
    fn __clone_box(&self, _: Private) -> *mut ();
}

impl<T: Clone> DynClone for T {
    fn __clone_box(&self, _: Private) -> *mut () {
        Box::<T>::into_raw(Box::new(self.clone())) as *mut ()
    }
}

/// Clone a (possibly unsized) value into a box.
pub fn clone_box<T: ?Sized + DynClone>(t: &T) -> Box<T> {
    let mut fat_ptr = t as *const T;
    unsafe {
        let data_ptr = &mut fat_ptr as *mut *const T as *mut *mut ();
        *data_ptr = <T as DynClone>::__clone_box(t, Private);
        Box::from_raw(fat_ptr as *mut T)
    }
}
