"""which contracts each property rests on"""
import json, os
from contracts import CASES
HERE = os.path.dirname(os.path.abspath(__file__))
TITLES = {}
for l in open(os.path.join(os.path.dirname(HERE), 'properties.jsonl')):
    d = json.loads(l)
    TITLES[d['id']] = d['title']

GV = 'GenericVec::'


def gv(s):
    return [GV + x for x in s.split()]


PROPS = {
    'P01': dict(cases=gv('push insert push_array insert_array push_unchecked insert_unchecked push_array_unchecked insert_array_unchecked')),
    'P02': dict(cases=gv('pop remove swap_remove pop_array remove_array pop_unchecked remove_unchecked swap_remove_unchecked '
                         'pop_array_unchecked remove_array_unchecked truncate clear')),
    'P03': dict(cases=gv('try_push try_insert try_push_array try_insert_array try_pop try_remove try_swap_remove try_pop_array '
                         'try_remove_array try_reserve')),
    'P04': dict(cases=gv('reserve try_reserve push insert push_array insert_array grow grow_with extend_from_slice split_off_into') +
                ['Extend<T>::extend', 'Extend<&T>::extend']),
    'P11': dict(cases=gv('grow grow_with resize resize_with extend_from_slice') +
                ['Extend<T>::extend', 'Extend<&T>::extend', 'FromIterator for GenericVec::from_iter']),
    'P12': dict(cases=['Clone for GenericVec::clone', 'Clone for GenericVec::clone_from', GV + 'clone_from']),
    'P14': dict(cases=gv('split_off_into append split_off convert')),
    'P07': dict(cases=['Iterator for Drain::next', 'DoubleEndedIterator for Drain::next_back', 'Iterator for Drain::size_hint',
                       'ExactSizeIterator for Drain::is_empty', 'drop of Drain', GV + 'drain'] +
                [c for c, x in CASES.items() if x.module == 'over' and 'Drain' in c]),
    'P10': dict(cases=[c for c in CASES if c.startswith(('RawCursor::', 'Cursor::'))] + ['Drop for RawCursor::drop', GV + 'cursor', GV + 'raw_cursor']),
    'P20': dict(cases=['check_range', 'RawCursor::new'] + gv('raw_cursor cursor drain drain_filter splice')),
    'P08': dict(cases=['Iterator for DrainFilter::next', 'DoubleEndedIterator for DrainFilter::next_back', 'Iterator for DrainFilter::size_hint',
                       'drop of DrainFilter'] + gv('drain_filter retain')),
    'P09': dict(cases=['Iterator for Splice::next', 'DoubleEndedIterator for Splice::next_back', 'Iterator for Splice::size_hint', 'drop of Splice',
                       GV + 'splice'] + [c for c, x in CASES.items() if x.module == 'over' and 'Splice' in c]),
    'P15': dict(cases=gv('dedup_by dedup_by_key dedup')),
    'P19': dict(cases=[c for c in CASES if 'IntoIter' in c]),
    'P13': dict(cases=[c for c in CASES if c.startswith(('PartialEq for', 'PartialOrd for', 'Ord for', 'Hash for', 'Debug for', 'Index', 'Deref', 'AsRef',
                                                          'AsMut', 'Borrow', 'IntoIterator for &'))] + gv('as_slice as_mut_slice as_ptr as_mut_ptr')),
}
PROPS['P16'] = dict(cases=[c for c, x in CASES.items() if x.module == 'raw'] +
                    ['Storage for Heap::capacity', 'Storage for Heap::as_ptr', 'Storage for Heap::as_mut_ptr'])
PROPS['P17'] = dict(cases=[c for c, x in CASES.items() if x.module == 'heap'] + ['From for HeapVec::from', 'From for Vec::from', 'HeapVec::new', 'HeapVec::with_alloc'])
PROPS['P21'] = dict(cases=[c for c, x in CASES.items() if x.module == 'make' and c != 'drop of GenericVec'])
# P05 and P06 are read off the same contracts: what is proved about ownership (view 'own') and about unwinding out of user code ('unwind')
_GENERIC = [c for c, x in CASES.items() if x.module in ('contracts', 'iter', 'into', 'filter', 'splice')] + \
    [c for c, x in CASES.items() if x.module == 'over' and ' for GenericVec' not in c]
_MAKE = gv('with_storage with_capacity __with_capacity__const_capacity_checked spare_capacity_mut') + \
    [c for c in CASES if c.startswith('gvec!')] + ['drop of GenericVec', 'Default for GenericVec::default']
PROPS['P05'] = dict(cases=[c for c in _GENERIC if c not in ('RawCursor::write_slice_front', 'RawCursor::write_slice_back', 'check_range')] + _MAKE,
                    view='own', skip_modes=('copy',))
PROPS['P06'] = dict(cases=gv('truncate clear grow grow_with resize resize_with extend_from_slice clone_from retain dedup_by dedup_by_key dedup') +
                    ['Extend<T>::extend', 'Extend<&T>::extend', 'FromIterator for GenericVec::from_iter', 'Clone for GenericVec::clone',
                     'Clone for GenericVec::clone_from'] +
                    [k + '::drop_' + n for k in ('RawCursor', 'Cursor') for n in ('front', 'back', 'n_front', 'n_back')] +
                    ['drop of Drain', 'Iterator for IntoIter::nth', 'Iterator for IntoIter::count', 'drop of IntoIter', 'Iterator for DrainFilter::next',
                     'DoubleEndedIterator for DrainFilter::next_back', 'drop of DrainFilter', 'drop of Splice', 'drop of GenericVec', 'gvec! with a count'] +
                    [c for c in CASES if c.startswith('gvec!') and c.endswith('calls')],
                    view='unwind')
_ZERO = [c for c, x in CASES.items() if x.module in ('raw', 'heap') and x.ex.get('symsizes') and not c.startswith('const ') and c != 'capacity']
PROPS['P18'] = dict(cases=[c for c, x in CASES.items() if 'zst' in x.modes] + _ZERO + ['capacity'], only_modes=('zst', 'zero'), zero=_ZERO)
for k, v in PROPS.items():
    v['title'] = TITLES[k]
    for c in v['cases']:
        assert c in CASES, c

TRUSTED = [
    "rustc 1.52.1's MIR construction (-Zunpretty=mir, mir-opt-level 0, the compiler the repository pins) for the six configurations checked; the text parser vc/mir.py fails closed on anything it does not know",
    "the MIR semantics and memory model of vc/exec.py and vc/core.py (symbolic execution, weakest preconditions over one path at a time)",
    "z3 5.3.2 (python bindings) and, where z3 answers unknown, cvc5 1.1.2",
    "the library contracts of vc/builtin_specs.py and vc/models.py (core::ptr, core::slice, core::mem, iterator adaptors, Vec/Box/Layout/allocator functions) are assumed, not proved (vc/selftest.rs holds assertions about them that are both proved from the models and run against the real library); evidence lists those each run used under library_contracts_assumed",
    "unsafe trait contract of Storage for a storage type that is not in the crate: capacity/as_ptr answer for the present memory, reserve/try_reserve keep the contents below the old capacity and give at least the requested one (P16/P17 prove it for the crate's own storages)",
]
ASSUMPTIONS = [
    "machine integers are modelled exactly (64-bit usize with wrapping, overflow checks as compiled in each configuration); 32-bit targets are not checked",
    "user code (closures, clone, iterators, comparison, destructors) may return anything and panic at any call, but does not reach the vector behind its back; size_hint and key-type destructors do not panic; `==` in dedup does not modify the elements",
    "P13: == and the order of the elements are functions of the two values compared, and return",
    "aliasing rules (stacked borrows), alignment of element accesses through an aligned storage and drop order among several values dropped together are not modelled",
    "an allocation failure ends in handle_alloc_error, treated as a panic in whose presence the state must be valid",
]
