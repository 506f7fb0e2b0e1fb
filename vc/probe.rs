
/// uses of the crate's macros, so that what they expand to can be put under contract
pub mod vc_probe {
    use crate::{raw::{Storage, StorageWithCapacity}, GenericVec, SliceVec};
    /// gvec!
    pub fn vc_gvec0<T, S: StorageWithCapacity<T>>() -> GenericVec<T, S> { gvec![] }
    /// gvec!
    pub fn vc_gvec1<T, S: StorageWithCapacity<T>>(x0: T) -> GenericVec<T, S> { gvec![x0] }
    /// gvec!
    pub fn vc_gvec2<T, S: StorageWithCapacity<T>>(x0: T, x1: T) -> GenericVec<T, S> { gvec![x0, x1] }
    /// gvec!
    pub fn vc_gvec3<T, S: StorageWithCapacity<T>>(x0: T, x1: T, x2: T) -> GenericVec<T, S> { gvec![x0, x1, x2] }
    /// gvec!
    pub fn vc_gvec4<T, S: StorageWithCapacity<T>>(x0: T, x1: T, x2: T, x3: T) -> GenericVec<T, S> { gvec![x0, x1, x2, x3] }
    /// gvec!
    pub fn vc_gvec5<T, S: StorageWithCapacity<T>>(x0: T, x1: T, x2: T, x3: T, x4: T) -> GenericVec<T, S> { gvec![x0, x1, x2, x3, x4] }
    /// gvec!
    pub fn vc_gvec6<T, S: StorageWithCapacity<T>>(x0: T, x1: T, x2: T, x3: T, x4: T, x5: T) -> GenericVec<T, S> { gvec![x0, x1, x2, x3, x4, x5] }
    /// gvec!
    pub fn vc_gvec7<T, S: StorageWithCapacity<T>>(x0: T, x1: T, x2: T, x3: T, x4: T, x5: T, x6: T) -> GenericVec<T, S> { gvec![x0, x1, x2, x3, x4, x5, x6] }
    /// gvec!
    pub fn vc_gvec8<T, S: StorageWithCapacity<T>>(x0: T, x1: T, x2: T, x3: T, x4: T, x5: T, x6: T, x7: T) -> GenericVec<T, S> { gvec![x0, x1, x2, x3, x4, x5, x6, x7] }
    /// gvec!
    pub fn vc_gvec9<T, S: StorageWithCapacity<T>>(x0: T, x1: T, x2: T, x3: T, x4: T, x5: T, x6: T, x7: T, x8: T) -> GenericVec<T, S> { gvec![x0, x1, x2, x3, x4, x5, x6, x7, x8] }
    /// gvec!
    pub fn vc_gvec10<T, S: StorageWithCapacity<T>>(x0: T, x1: T, x2: T, x3: T, x4: T, x5: T, x6: T, x7: T, x8: T, x9: T) -> GenericVec<T, S> { gvec![x0, x1, x2, x3, x4, x5, x6, x7, x8, x9] }
    /// gvec!
    pub fn vc_gvec11<T, S: StorageWithCapacity<T>>(x0: T, x1: T, x2: T, x3: T, x4: T, x5: T, x6: T, x7: T, x8: T, x9: T, x10: T) -> GenericVec<T, S> { gvec![x0, x1, x2, x3, x4, x5, x6, x7, x8, x9, x10] }
    /// gvec!
    pub fn vc_gvec12<T, S: StorageWithCapacity<T>>(x0: T, x1: T, x2: T, x3: T, x4: T, x5: T, x6: T, x7: T, x8: T, x9: T, x10: T, x11: T) -> GenericVec<T, S> { gvec![x0, x1, x2, x3, x4, x5, x6, x7, x8, x9, x10, x11] }
    /// gvec!
    pub fn vc_gvec13<T, S: StorageWithCapacity<T>>(x0: T, x1: T, x2: T, x3: T, x4: T, x5: T, x6: T, x7: T, x8: T, x9: T, x10: T, x11: T, x12: T) -> GenericVec<T, S> { gvec![x0, x1, x2, x3, x4, x5, x6, x7, x8, x9, x10, x11, x12] }
    /// gvec!
    pub fn vc_gvec14<T, S: StorageWithCapacity<T>>(x0: T, x1: T, x2: T, x3: T, x4: T, x5: T, x6: T, x7: T, x8: T, x9: T, x10: T, x11: T, x12: T, x13: T) -> GenericVec<T, S> { gvec![x0, x1, x2, x3, x4, x5, x6, x7, x8, x9, x10, x11, x12, x13] }
    /// gvec!
    pub fn vc_gvec15<T, S: StorageWithCapacity<T>>(x0: T, x1: T, x2: T, x3: T, x4: T, x5: T, x6: T, x7: T, x8: T, x9: T, x10: T, x11: T, x12: T, x13: T, x14: T) -> GenericVec<T, S> { gvec![x0, x1, x2, x3, x4, x5, x6, x7, x8, x9, x10, x11, x12, x13, x14] }
    /// gvec!
    pub fn vc_gvec16<T, S: StorageWithCapacity<T>>(x0: T, x1: T, x2: T, x3: T, x4: T, x5: T, x6: T, x7: T, x8: T, x9: T, x10: T, x11: T, x12: T, x13: T, x14: T, x15: T) -> GenericVec<T, S> { gvec![x0, x1, x2, x3, x4, x5, x6, x7, x8, x9, x10, x11, x12, x13, x14, x15] }
    /// gvec!
    pub fn vc_gvec17<T, S: StorageWithCapacity<T>>(x0: T, x1: T, x2: T, x3: T, x4: T, x5: T, x6: T, x7: T, x8: T, x9: T, x10: T, x11: T, x12: T, x13: T, x14: T, x15: T, x16: T) -> GenericVec<T, S> { gvec![x0, x1, x2, x3, x4, x5, x6, x7, x8, x9, x10, x11, x12, x13, x14, x15, x16] }
    /// gvec!
    pub fn vc_gvec18<T, S: StorageWithCapacity<T>>(x0: T, x1: T, x2: T, x3: T, x4: T, x5: T, x6: T, x7: T, x8: T, x9: T, x10: T, x11: T, x12: T, x13: T, x14: T, x15: T, x16: T, x17: T) -> GenericVec<T, S> { gvec![x0, x1, x2, x3, x4, x5, x6, x7, x8, x9, x10, x11, x12, x13, x14, x15, x16, x17] }
    /// gvec!
    pub fn vc_gvec19<T, S: StorageWithCapacity<T>>(x0: T, x1: T, x2: T, x3: T, x4: T, x5: T, x6: T, x7: T, x8: T, x9: T, x10: T, x11: T, x12: T, x13: T, x14: T, x15: T, x16: T, x17: T, x18: T) -> GenericVec<T, S> { gvec![x0, x1, x2, x3, x4, x5, x6, x7, x8, x9, x10, x11, x12, x13, x14, x15, x16, x17, x18] }
    /// gvec!
    pub fn vc_gvec20<T, S: StorageWithCapacity<T>>(x0: T, x1: T, x2: T, x3: T, x4: T, x5: T, x6: T, x7: T, x8: T, x9: T, x10: T, x11: T, x12: T, x13: T, x14: T, x15: T, x16: T, x17: T, x18: T, x19: T) -> GenericVec<T, S> { gvec![x0, x1, x2, x3, x4, x5, x6, x7, x8, x9, x10, x11, x12, x13, x14, x15, x16, x17, x18, x19] }
    /// gvec!
    pub fn vc_gvec24<T, S: StorageWithCapacity<T>>(x0: T, x1: T, x2: T, x3: T, x4: T, x5: T, x6: T, x7: T, x8: T, x9: T, x10: T, x11: T, x12: T, x13: T, x14: T, x15: T, x16: T, x17: T, x18: T, x19: T, x20: T, x21: T, x22: T, x23: T) -> GenericVec<T, S> { gvec![x0, x1, x2, x3, x4, x5, x6, x7, x8, x9, x10, x11, x12, x13, x14, x15, x16, x17, x18, x19, x20, x21, x22, x23] }
    /// gvec!
    pub fn vc_gvec31<T, S: StorageWithCapacity<T>>(x0: T, x1: T, x2: T, x3: T, x4: T, x5: T, x6: T, x7: T, x8: T, x9: T, x10: T, x11: T, x12: T, x13: T, x14: T, x15: T, x16: T, x17: T, x18: T, x19: T, x20: T, x21: T, x22: T, x23: T, x24: T, x25: T, x26: T, x27: T, x28: T, x29: T, x30: T) -> GenericVec<T, S> { gvec![x0, x1, x2, x3, x4, x5, x6, x7, x8, x9, x10, x11, x12, x13, x14, x15, x16, x17, x18, x19, x20, x21, x22, x23, x24, x25, x26, x27, x28, x29, x30] }
    /// gvec!
    pub fn vc_gvec32<T, S: StorageWithCapacity<T>>(x0: T, x1: T, x2: T, x3: T, x4: T, x5: T, x6: T, x7: T, x8: T, x9: T, x10: T, x11: T, x12: T, x13: T, x14: T, x15: T, x16: T, x17: T, x18: T, x19: T, x20: T, x21: T, x22: T, x23: T, x24: T, x25: T, x26: T, x27: T, x28: T, x29: T, x30: T, x31: T) -> GenericVec<T, S> { gvec![x0, x1, x2, x3, x4, x5, x6, x7, x8, x9, x10, x11, x12, x13, x14, x15, x16, x17, x18, x19, x20, x21, x22, x23, x24, x25, x26, x27, x28, x29, x30, x31] }
    /// gvec!
    pub fn vc_gvec33<T, S: StorageWithCapacity<T>>(x0: T, x1: T, x2: T, x3: T, x4: T, x5: T, x6: T, x7: T, x8: T, x9: T, x10: T, x11: T, x12: T, x13: T, x14: T, x15: T, x16: T, x17: T, x18: T, x19: T, x20: T, x21: T, x22: T, x23: T, x24: T, x25: T, x26: T, x27: T, x28: T, x29: T, x30: T, x31: T, x32: T) -> GenericVec<T, S> { gvec![x0, x1, x2, x3, x4, x5, x6, x7, x8, x9, x10, x11, x12, x13, x14, x15, x16, x17, x18, x19, x20, x21, x22, x23, x24, x25, x26, x27, x28, x29, x30, x31, x32] }
    /// gvec! of expressions that may panic
    pub fn vc_gvec_with1<T, S: StorageWithCapacity<T>, F: FnMut() -> T>(mut f: F) -> GenericVec<T, S> { gvec![f()] }
    /// gvec! of expressions that may panic
    pub fn vc_gvec_with2<T, S: StorageWithCapacity<T>, F: FnMut() -> T>(mut f: F) -> GenericVec<T, S> { gvec![f(), f()] }
    /// gvec! of expressions that may panic
    pub fn vc_gvec_with3<T, S: StorageWithCapacity<T>, F: FnMut() -> T>(mut f: F) -> GenericVec<T, S> { gvec![f(), f(), f()] }
    /// gvec! of expressions that may panic
    pub fn vc_gvec_with4<T, S: StorageWithCapacity<T>, F: FnMut() -> T>(mut f: F) -> GenericVec<T, S> { gvec![f(), f(), f(), f()] }
    /// gvec! with a repeat count
    pub fn vc_gvec_repeat<T: Clone, S: StorageWithCapacity<T>>(x: T, n: usize) -> GenericVec<T, S> { gvec![x; n] }
    /// save_spare!
    ///
    /// # Safety
    ///
    /// that of save_spare!
    pub unsafe fn vc_save_spare<'a, T, S: Storage<T>>(spare: SliceVec<'a, T>, orig: &mut GenericVec<T, S>) { unsafe { save_spare!(spare, orig); } }
    /// save_spare! with an expression that tells how often it is evaluated
    ///
    /// # Safety
    ///
    /// that of save_spare!
    pub unsafe fn vc_save_spare_once<'a, T, S: Storage<T>, F: FnMut()>(spare: SliceVec<'a, T>, orig: &mut GenericVec<T, S>, mut f: F) { unsafe { save_spare!(spare, { f(); &mut *orig }); } }
    /// gvec! with a repeat count, of expressions that tell how often they are evaluated
    pub fn vc_gvec_repeat_once<T: Clone, S: StorageWithCapacity<T>, F: FnMut() -> T, G: FnMut()>(mut f: F, mut g: G, n: usize) -> GenericVec<T, S> { gvec![f(); { g(); n }] }
    //COUNT
    /// count!
    pub fn vc_count(i: usize) -> usize {
        match i {
            0 => count!(),
            1 => count!(x),
            2 => count!(x x),
            3 => count!(x x x),
            4 => count!(x x x x),
            5 => count!(x x x x x),
            6 => count!(x x x x x x),
            7 => count!(x x x x x x x),
            8 => count!(x x x x x x x x),
            9 => count!(x x x x x x x x x),
            10 => count!(x x x x x x x x x x),
            11 => count!(x x x x x x x x x x x),
            12 => count!(x x x x x x x x x x x x),
            13 => count!(x x x x x x x x x x x x x),
            14 => count!(x x x x x x x x x x x x x x),
            15 => count!(x x x x x x x x x x x x x x x),
            16 => count!(x x x x x x x x x x x x x x x x),
            17 => count!(x x x x x x x x x x x x x x x x x),
            18 => count!(x x x x x x x x x x x x x x x x x x),
            19 => count!(x x x x x x x x x x x x x x x x x x x),
            20 => count!(x x x x x x x x x x x x x x x x x x x x),
            21 => count!(x x x x x x x x x x x x x x x x x x x x x),
            22 => count!(x x x x x x x x x x x x x x x x x x x x x x),
            23 => count!(x x x x x x x x x x x x x x x x x x x x x x x),
            24 => count!(x x x x x x x x x x x x x x x x x x x x x x x x),
            25 => count!(x x x x x x x x x x x x x x x x x x x x x x x x x),
            26 => count!(x x x x x x x x x x x x x x x x x x x x x x x x x x),
            27 => count!(x x x x x x x x x x x x x x x x x x x x x x x x x x x),
            28 => count!(x x x x x x x x x x x x x x x x x x x x x x x x x x x x),
            29 => count!(x x x x x x x x x x x x x x x x x x x x x x x x x x x x x),
            30 => count!(x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x),
            31 => count!(x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x),
            32 => count!(x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x),
            33 => count!(x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x),
            34 => count!(x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x),
            35 => count!(x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x),
            36 => count!(x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x),
            37 => count!(x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x),
            38 => count!(x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x),
            39 => count!(x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x),
            40 => count!(x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x),
            41 => count!(x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x),
            42 => count!(x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x),
            43 => count!(x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x),
            44 => count!(x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x),
            45 => count!(x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x),
            46 => count!(x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x),
            47 => count!(x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x),
            48 => count!(x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x),
            49 => count!(x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x),
            50 => count!(x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x),
            51 => count!(x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x),
            52 => count!(x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x),
            53 => count!(x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x),
            54 => count!(x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x),
            55 => count!(x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x),
            56 => count!(x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x),
            57 => count!(x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x),
            58 => count!(x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x),
            59 => count!(x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x),
            60 => count!(x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x),
            61 => count!(x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x),
            62 => count!(x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x),
            63 => count!(x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x),
            64 => count!(x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x),
            65 => count!(x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x),
            66 => count!(x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x),
            67 => count!(x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x),
            68 => count!(x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x),
            69 => count!(x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x),
            70 => count!(x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x),
            71 => count!(x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x),
            72 => count!(x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x),
            73 => count!(x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x),
            74 => count!(x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x),
            75 => count!(x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x),
            76 => count!(x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x),
            77 => count!(x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x),
            78 => count!(x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x),
            79 => count!(x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x),
            80 => count!(x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x),
            81 => count!(x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x),
            82 => count!(x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x),
            83 => count!(x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x),
            84 => count!(x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x),
            85 => count!(x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x),
            86 => count!(x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x),
            87 => count!(x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x),
            88 => count!(x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x),
            89 => count!(x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x),
            90 => count!(x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x),
            91 => count!(x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x),
            92 => count!(x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x),
            93 => count!(x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x),
            94 => count!(x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x),
            95 => count!(x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x),
            96 => count!(x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x),
            97 => count!(x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x),
            98 => count!(x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x),
            99 => count!(x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x),
            100 => count!(x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x),
            101 => count!(x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x),
            102 => count!(x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x),
            103 => count!(x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x),
            104 => count!(x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x),
            105 => count!(x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x),
            106 => count!(x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x),
            107 => count!(x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x),
            108 => count!(x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x),
            109 => count!(x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x),
            110 => count!(x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x),
            111 => count!(x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x),
            112 => count!(x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x),
            113 => count!(x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x),
            114 => count!(x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x),
            115 => count!(x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x),
            116 => count!(x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x),
            117 => count!(x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x),
            118 => count!(x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x),
            119 => count!(x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x),
            120 => count!(x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x),
            121 => count!(x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x),
            122 => count!(x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x),
            123 => count!(x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x),
            124 => count!(x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x),
            125 => count!(x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x),
            126 => count!(x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x),
            127 => count!(x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x),
            128 => count!(x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x),
            129 => count!(x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x),
            130 => count!(x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x),
            131 => count!(x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x),
            132 => count!(x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x),
            133 => count!(x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x),
            134 => count!(x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x),
            135 => count!(x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x),
            136 => count!(x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x),
            137 => count!(x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x),
            138 => count!(x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x),
            139 => count!(x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x x),
            _ => i,
        }
    }
    //END
}
