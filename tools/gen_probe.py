"""regenerate vc/probe.rs: uses of the crate's macros"""
import os
out = ['', '/// uses of the crate\'s macros, so that what they expand to can be put under contract', 'pub mod vc_probe {',
       '    use crate::{raw::{Storage, StorageWithCapacity}, GenericVec, SliceVec};']
VALUES = list(range(0, 21)) + [24, 31, 32, 33]
for k in VALUES:
    out += ['    /// gvec!', '    pub fn vc_gvec%d<T, S: StorageWithCapacity<T>>(%s) -> GenericVec<T, S> { gvec![%s] }' %
            (k, ', '.join('x%d: T' % i for i in range(k)), ', '.join('x%d' % i for i in range(k)))]
for k in (1, 2, 3, 4):
    out += ['    /// gvec! of expressions that may panic', '    pub fn vc_gvec_with%d<T, S: StorageWithCapacity<T>, F: FnMut() -> T>(mut f: F) -> GenericVec<T, S> { gvec![%s] }' %
            (k, ', '.join(['f()'] * k))]
out += ['''    /// gvec! with a repeat count
    pub fn vc_gvec_repeat<T: Clone, S: StorageWithCapacity<T>>(x: T, n: usize) -> GenericVec<T, S> { gvec![x; n] }
    /// save_spare!
    ///
    /// # Safety
    ///
    /// that of save_spare!
    pub unsafe fn vc_save_spare<'a, T, S: Storage<T>>(spare: SliceVec<'a, T>, orig: &mut GenericVec<T, S>) { unsafe { save_spare!(spare, orig); } }
    /// save_spare! with an expression that tells how often it is evaluated
    ///
    /// # Safety
    ///
    /// that of save_spare!
    pub unsafe fn vc_save_spare_once<'a, T, S: Storage<T>, F: FnMut()>(spare: SliceVec<'a, T>, orig: &mut GenericVec<T, S>, mut f: F) { unsafe { save_spare!(spare, { f(); &mut *orig }); } }
    /// gvec! with a repeat count, of expressions that tell how often they are evaluated
    pub fn vc_gvec_repeat_once<T: Clone, S: StorageWithCapacity<T>, F: FnMut() -> T, G: FnMut()>(mut f: F, mut g: G, n: usize) -> GenericVec<T, S> { gvec![f(); { g(); n }] }
    //COUNT
    /// count!
    pub fn vc_count(i: usize) -> usize {
        match i {''']
for k in range(0, 140):
    out.append('            %d => count!(%s),' % (k, ' '.join(['x'] * k)))
out += ['            _ => i,', '        }', '    }', '    //END', '}', '']
R = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
open(os.path.join(R, 'vc', 'probe.rs'), 'w').write('\n'.join(out))
