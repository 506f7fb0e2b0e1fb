
/// small functions that must return true for every argument: they hold the verifier's models of library functions against the real ones
/// (verified by selftest.py, and run natively by it)
pub mod vc_selftest {
    use core::mem;
    // ------------------------------------------------------------ integers
    pub fn st_wrapping(a: usize, b: usize) -> bool {
        a.wrapping_add(b).wrapping_sub(b) == a && a.wrapping_sub(b) == a.wrapping_add((!b).wrapping_add(1))
    }
    pub fn st_wrapping_one(a: usize) -> bool { (a.wrapping_add(1) == 0) == (a == usize::MAX) && (a.wrapping_sub(1) == usize::MAX) == (a == 0) }
    pub fn st_checked_add(a: usize, b: usize) -> bool {
        match a.checked_add(b) { Some(c) => c >= a && c >= b && c - a == b, None => a > usize::MAX - b }
    }
    pub fn st_checked_sub(a: usize, b: usize) -> bool {
        match a.checked_sub(b) { Some(c) => b <= a && c == a - b, None => a < b }
    }
    pub fn st_checked_mul2(a: usize) -> bool {
        match a.checked_mul(2) { Some(c) => a <= usize::MAX / 2 && c == a + a, None => a > usize::MAX / 2 }
    }
    pub fn st_saturating(a: usize, b: usize) -> bool {
        let s = a.saturating_add(b);
        let d = a.saturating_sub(b);
        (s == usize::MAX || s - b == a) && s >= a && (if a >= b { d == a - b } else { d == 0 })
    }
    pub fn st_overflowing(a: usize, b: usize) -> bool {
        let (s, o) = a.overflowing_add(b);
        let (d, p) = a.overflowing_sub(b);
        s == a.wrapping_add(b) && o == a.checked_add(b).is_none() && d == a.wrapping_sub(b) && p == (a < b)
    }
    pub fn st_min_max(a: usize, b: usize) -> bool {
        let (x, y) = (a.min(b), a.max(b));
        x <= y && (x == a && y == b || x == b && y == a) && core::cmp::min(a, b) == x && core::cmp::max(a, b) == y && Ord::min(a, b) == x
    }
    pub fn st_clamp(a: usize) -> bool { let c = a.clamp(3, 9); c >= 3 && c <= 9 && (a < 3 || a > 9 || c == a) }
    pub fn st_div(a: usize) -> bool { a / 4 * 4 + a % 4 == a && a % 4 < 4 && a >> 1 == a / 2 && a & 1 == a % 2 }
    pub fn st_checked_div(a: usize, b: usize) -> bool {
        (a.checked_div(b).is_none() == (b == 0)) && (a.checked_rem(b).is_none() == (b == 0)) && a.checked_div(2) == Some(a / 2)
    }
    pub fn st_cmp(a: usize, b: usize) -> bool {
        use core::cmp::Ordering::*;
        match a.cmp(&b) { Less => a < b, Equal => a == b, Greater => a > b }
    }
    pub fn st_partial_cmp(a: usize, b: usize) -> bool {
        use core::cmp::Ordering;
        a.partial_cmp(&b) == Some(a.cmp(&b)) && (a.cmp(&b) == Ordering::Equal) == (a == b) && a.cmp(&b).reverse() == b.cmp(&a)
    }
    pub fn st_ref_cmp(a: usize, b: usize) -> bool { let (x, y) = (&a, &b); (x < y) == (a < b) && (x == y) == (a == b) && (x >= y) == (a >= b) && (x != y) == (a != b) }
    pub fn st_lt_methods(a: usize, b: usize) -> bool { a.lt(&b) == (a < b) && a.le(&b) == (a <= b) && a.gt(&b) == (a > b) && a.ge(&b) == (a >= b) && a.eq(&b) == (a == b) && a.ne(&b) == (a != b) }
    pub fn st_pow2(a: usize) -> bool { a > 16 || a.is_power_of_two() == (a == 1 || a == 2 || a == 4 || a == 8 || a == 16) }
    pub fn st_isize(a: usize) -> bool { let x = a as isize; (x < 0) == (a > isize::MAX as usize) && x as usize == a }
    pub fn st_bool(a: bool, b: bool) -> bool { (a & b) == (a && b) && (a | b) == (a || b) && (a ^ b) == (a != b) && !a == (a == false) }
    pub fn st_bool_cast(a: bool) -> bool { (a as usize) == (if a { 1 } else { 0 }) && usize::from(a) == a as usize }
    pub fn st_bool_then(a: bool, n: usize) -> bool { a.then(|| n) == (if a { Some(n) } else { None }) }
    pub fn st_assign_ops(a: usize, b: usize) -> bool { let mut x = a % 1000; let y = b % 1000; let z = x; x += y; x -= 1 - (1 - 0); x += 1; x -= 1; x == z + y }
    // ------------------------------------------------------------ options and results
    pub fn st_opt_basic(a: Option<usize>) -> bool {
        a.is_some() != a.is_none() && a.unwrap_or(5) == (match a { Some(x) => x, None => 5 }) && a.unwrap_or_else(|| 7) == (if let Some(x) = a { x } else { 7 })
    }
    pub fn st_opt_map(a: Option<usize>) -> bool {
        a.map(|x| x / 2) == (match a { Some(x) => Some(x / 2), None => None }) && a.map_or(3, |x| x / 2) == a.map(|x| x / 2).unwrap_or(3)
    }
    pub fn st_opt_map_or_else(a: Option<usize>) -> bool { a.map_or_else(|| 3, |x| x / 2) == a.map_or(3, |x| x / 2) }
    pub fn st_opt_and_then(a: Option<usize>) -> bool { a.and_then(|x| x.checked_add(1)) == (match a { Some(x) if x < usize::MAX => Some(x + 1), _ => None }) }
    pub fn st_opt_and_or(a: Option<usize>, b: Option<usize>) -> bool {
        a.and(b) == (if a.is_some() { b } else { None }) && a.or(b) == (if a.is_some() { a } else { b }) && a.or_else(|| b) == a.or(b)
    }
    pub fn st_opt_xor_zip(a: Option<usize>, b: Option<usize>) -> bool {
        a.zip(b).is_some() == (a.is_some() && b.is_some()) && a.xor(b).is_some() == (a.is_some() != b.is_some())
    }
    pub fn st_opt_filter(a: Option<usize>) -> bool { a.filter(|x| *x > 4) == (match a { Some(x) if x > 4 => Some(x), _ => None }) }
    pub fn st_opt_ok_or(a: Option<usize>) -> bool {
        a.ok_or(()) .is_ok() == a.is_some() && a.ok_or(()).ok() == a && a.ok_or_else(|| 5usize).unwrap_or_else(|e| e) == a.unwrap_or(5)
    }
    pub fn st_opt_default(a: Option<usize>) -> bool { a.unwrap_or_default() == a.unwrap_or(0) }
    pub fn st_opt_take(a: Option<usize>) -> bool { let mut b = a; let c = b.take(); b.is_none() && c == a }
    pub fn st_opt_replace(a: Option<usize>, n: usize) -> bool { let mut b = a; let c = b.replace(n); b == Some(n) && c == a }
    pub fn st_opt_insert(a: Option<usize>, n: usize) -> bool { let mut b = a; let c = *b.get_or_insert(n); b == Some(c) && (c == a.unwrap_or(n)) }
    pub fn st_opt_insert_with(a: Option<usize>, n: usize) -> bool { let mut b = a; *b.get_or_insert_with(|| n) == a.unwrap_or(n) }
    pub fn st_opt_as_ref(a: Option<usize>) -> bool { a.as_ref().map(|x| *x) == a && a.as_ref().copied() == a && a.as_ref().cloned() == a }
    pub fn st_opt_as_mut(a: Option<usize>) -> bool { let mut b = a; if let Some(x) = b.as_mut() { *x = 4 } ; b == a.map(|_| 4) }
    pub fn st_opt_if_let_mut(a: Option<usize>) -> bool { let mut b = a; if let Some(x) = &mut b { *x /= 2 } ; b == a.map(|x| x / 2) }
    pub fn st_opt_eq(a: Option<usize>, b: Option<usize>) -> bool { (a == b) != (a != b) && (a == None) == a.is_none() && (a == Some(3)) == (a.is_some() && a.unwrap_or(0) == 3) }
    pub fn st_opt_ord(a: Option<usize>) -> bool { a >= None && (a > None) == a.is_some() }
    pub fn st_opt_question(a: Option<usize>) -> bool {
        fn f(a: Option<usize>) -> Option<usize> { let x = a?; Some(x / 2) }
        f(a) == a.map(|x| x / 2)
    }
    pub fn st_opt_expect(a: usize) -> bool { Some(a).expect("x") == a && Some(a).unwrap() == a }
    pub fn st_opt_iter(a: Option<usize>) -> bool { let mut n = 0; for x in a { n = x } n == a.unwrap_or(0) }
    pub fn st_res_question(a: usize) -> bool {
        fn g(a: usize) -> Result<usize, bool> { if a > 9 { Ok(a) } else { Err(a == 3) } }
        fn f(a: usize) -> Result<usize, bool> { let x = g(a)?; Ok(x / 2) }
        f(a) == (if a > 9 { Ok(a / 2) } else { Err(a == 3) })
    }
    pub fn st_res(a: usize) -> bool {
        fn g(a: usize) -> Result<usize, bool> { if a > 9 { Ok(a) } else { Err(a == 3) } }
        let r = g(a);
        r.is_ok() == (a > 9) && r.is_err() != r.is_ok() && r.ok() == (if a > 9 { Some(a) } else { None }) && r.unwrap_or(4) == (if a > 9 { a } else { 4 })
            && r.map(|x| x - 9).unwrap_or(0) == a.saturating_sub(9) && r.map_err(|e| !e) == (if a > 9 { Ok(a) } else { Err(a != 3) }) && r.err() == (if a > 9 { None } else { Some(a == 3) })
    }
    pub fn st_res_more(a: usize) -> bool {
        fn g(a: usize) -> Result<usize, bool> { if a > 9 { Ok(a) } else { Err(a == 3) } }
        let r = g(a);
        r.and_then(|x| if x > 20 { Ok(x) } else { Err(true) }).is_ok() == (a > 20) && r.or_else(|e| if e { Ok(1) } else { Err(()) }).is_ok() == (a > 9 || a == 3)
            && r.unwrap_or_else(|e| e as usize) == (if a > 9 { a } else if a == 3 { 1 } else { 0 }) && r.map_or(2, |x| x - 1) == (if a > 9 { a - 1 } else { 2 })
    }
    pub fn st_res_err(a: usize) -> bool { let r: Result<(), usize> = Err(a); r.unwrap_err() == a && r.expect_err("") == a && r.is_err() }
    pub fn st_res_as_ref(a: usize) -> bool { let r: Result<usize, ()> = Ok(a); r.as_ref().ok() == Some(&a) }
    pub fn st_matches(a: Option<usize>) -> bool { matches!(a, Some(x) if x > 3) == (a.unwrap_or(0) > 3) }
    // ------------------------------------------------------------ mem
    pub fn st_mem(a: usize, b: usize) -> bool {
        let (mut x, mut y) = (a, b);
        mem::swap(&mut x, &mut y);
        let z = mem::replace(&mut x, 9);
        let w = mem::take(&mut y);
        x == 9 && z == b && w == a && y == 0
    }
    pub fn st_mem_opt(a: Option<usize>) -> bool { let mut b = a; let c = mem::take(&mut b); b.is_none() && c == a && mem::replace(&mut b, a).is_none() && b == a }
    pub fn st_mem_size() -> bool { mem::size_of::<usize>() == 8 && mem::align_of::<usize>() == 8 && mem::size_of::<u8>() == 1 && mem::size_of::<()>() == 0 }
    // ------------------------------------------------------------ iterators over numbers
    pub fn st_range_for(n: usize) -> bool { let mut k = 0; let mut last = 0; for i in 0..n % 5 { k += 1; last = i } k == n % 5 && (k == 0 || last == k - 1) }
    pub fn st_range_incl(n: usize) -> bool { let mut k = 0; for _ in 0..=n % 4 { k += 1 } k == n % 4 + 1 }
    pub fn st_range_rev(n: usize) -> bool { let mut l = 7; for i in (0..n % 5).rev() { l = i } l == (if n % 5 == 0 { 7 } else { 0 }) }
    pub fn st_range_len(n: usize) -> bool { let r = 3..n; r.len() == n.saturating_sub(3) && r.is_empty() == (n <= 3) && r.contains(&5) == (n > 5) }
    pub fn st_range_next(n: usize) -> bool { let mut r = 0..n; let a = r.next(); let b = r.next_back(); a == (if n > 0 { Some(0) } else { None }) && b == (if n > 1 { Some(n - 1) } else { None }) }
    pub fn st_range_nth(n: usize) -> bool { let mut r = 0..n; r.nth(2) == (if n > 2 { Some(2) } else { None }) && r.next() == (if n > 3 { Some(3) } else { None }) }
    pub fn st_range_hint(n: usize) -> bool { (0..n).size_hint() == (n, Some(n)) }
    pub fn st_fold(n: usize) -> bool { (0..n % 4).fold(0, |a, x| a + x) == (n % 4) * (n % 4).saturating_sub(1) / 2 }
    pub fn st_count(n: usize) -> bool { (0..n % 4).count() == n % 4 && (0..n % 4).last() == (n % 4).checked_sub(1) }
    pub fn st_all_any(n: usize) -> bool { (0..n % 4).all(|x| x < 2) == (n % 4 <= 2) && (0..n % 4).any(|x| x == 2) == (n % 4 == 3) }
    pub fn st_enumerate(n: usize) -> bool { let mut ok = true; for (i, x) in (2..n % 7).enumerate() { ok = ok && x == i + 2 } ok }
    pub fn st_zip(n: usize) -> bool { let mut k = 0; for (a, b) in (0..n % 4).zip(1..3) { k += b - a } k == (n % 4).min(2) }
    pub fn st_take_skip(n: usize) -> bool { let mut k = 0; for x in (0..n % 6).skip(1).take(2) { k += x } k == (match n % 6 { 0 | 1 => 0, 2 => 1, _ => 3 }) }
    pub fn st_chain_once(n: usize) -> bool { let mut k = 0; for x in (0..n % 3).chain(5..6) { k += x } k == 5 + (if n % 3 == 2 { 1 } else { 0 }) }
    pub fn st_while_let(n: usize) -> bool { let mut r = 0..n % 4; let mut k = 0; while let Some(x) = r.next() { k = x + 1 } k == n % 4 }
    pub fn st_by_ref(n: usize) -> bool { let mut r = 0..n % 4; let mut k = 0; for x in r.by_ref().take(2) { k = x + 1 } k == (n % 4).min(2) && r.len() == n % 4 - k }
    pub fn st_map_for_each(n: usize) -> bool { let mut k = 0; (0..n % 4).map(|x| x + 1).for_each(|x| k = x); k == n % 4 }
    pub fn st_filter_iter(n: usize) -> bool { (0..n % 5).filter(|x| *x > 1).count() == (n % 5).saturating_sub(2) }
    pub fn st_fuse(n: usize) -> bool { let mut i = (0..n % 3).fuse(); let a = i.next(); let b = i.next(); let c = i.next(); a.is_some() == (n % 3 > 0) && b.is_some() == (n % 3 > 1) && c.is_none() }
    pub fn st_take_while(n: usize) -> bool { let mut k = 0; for x in (0..n % 6).take_while(|x| *x < 3) { k = x + 1 } k == (n % 6).min(3) }
    pub fn st_take_while_rest(n: usize) -> bool { let mut r = 0..n % 6; let mut k = 0; for x in r.by_ref().take_while(|x| *x < 2) { k = x + 1 } k == (n % 6).min(2) && r.len() == (n % 6).saturating_sub(3) }
    pub fn st_filter_map(n: usize) -> bool { let mut k = 0; for x in (0..n % 6).filter_map(|x| if x > 2 { Some(x + 1) } else { None }) { k = x } k == (if n % 6 > 3 { n % 6 } else { 0 }) }
    pub fn st_rev_map(n: usize) -> bool { let mut k = 9; for x in (0..n % 5).map(|x| x + 1).rev() { k = x } k == (if n % 5 > 0 { 1 } else { 9 }) }
    pub fn st_position(n: usize) -> bool { (3..n % 9).position(|x| x == 5) == (if n % 9 > 5 { Some(2) } else { None }) }
    pub fn st_sum(n: usize) -> bool { (0..n % 4).sum::<usize>() == (match n % 4 { 0 | 1 => 0, 2 => 1, _ => 3 }) }
    pub fn st_step_by(n: usize) -> bool { (0..n % 7).step_by(2).count() == (n % 7 + 1) / 2 }
    pub fn st_repeat_take(n: usize) -> bool { core::iter::repeat(n).take(2).all(|x| x == n) }
    pub fn st_iter_once(n: usize) -> bool { let mut k = 0; for x in core::iter::once(n) { k = x } k == n }
    pub fn st_try_for_each(n: usize) -> bool { (0..n % 6).try_for_each(|x| if x < 3 { Ok(()) } else { Err(x) }) == (if n % 6 > 3 { Err(3) } else { Ok(()) }) }
    pub fn st_find(n: usize) -> bool { (0..n % 6).find(|x| *x > 3) == (if n % 6 > 4 { Some(4) } else { None }) }
    // ------------------------------------------------------------ values
    pub fn st_v_unwrap_or<T>(a: Option<T>, b: T) -> bool { let _x = a.unwrap_or(b); true }
    pub fn st_v_ok<T>(a: bool, b: T, c: T) -> bool { let r = if a { Ok(b) } else { Err(b) }; let x = r.ok(); let _y = x.ok_or(c); true }
    pub fn st_v_map<T>(a: Option<T>) -> bool { let some = a.is_some(); let b = a.map(|x| (x, 1)); b.is_some() == some }
    pub fn st_v_map_unit<T>(a: Option<T>) -> bool { let some = a.is_some(); a.map(drop).is_some() == some }
    pub fn st_v_map_or<T>(a: Option<T>, b: T) -> bool { let _x = a.map_or(b, |x| x); true }
    pub fn st_v_or<T>(a: Option<T>, b: Option<T>) -> bool { let s = a.is_some() || b.is_some(); a.or(b).is_some() == s }
    pub fn st_v_and<T>(a: Option<T>, b: Option<T>) -> bool { let s = a.is_some() && b.is_some(); a.and(b).is_some() == s }
    pub fn st_v_and_then<T>(a: Option<T>, k: bool) -> bool { a.and_then(|x| if k { Some(x) } else { None }).is_none() || k }
    pub fn st_v_filter<T>(a: Option<T>, k: bool) -> bool { a.filter(|_| k).is_none() || k }
    pub fn st_v_replace<T>(a: T, b: T) -> bool { let mut x = Some(a); let y = mem::replace(&mut x, None); x = Some(b); x.is_some() && y.is_some() }
    pub fn st_v_take<T>(a: Option<T>) -> bool { let s = a.is_some(); let mut b = a; let c = b.take(); b.is_none() && c.is_some() == s }
    pub fn st_v_opt_replace<T>(a: Option<T>, b: T) -> bool { let mut c = a; let _d = c.replace(b); c.is_some() }
    pub fn st_v_assign<T>(a: T, b: T) -> bool { let mut x = a; x = b; mem::drop(x); true }
    pub fn st_v_opt_assign<T>(a: Option<T>, b: T) -> bool { let mut x = a; x = Some(b); x.is_some() }
    pub fn st_v_swap<T>(a: T, b: T) -> bool { let (mut x, mut y) = (a, b); mem::swap(&mut x, &mut y); drop(x); true }
    pub fn st_v_forget<T>(a: T, b: T) -> bool { let x = mem::ManuallyDrop::new(a); let _y = mem::ManuallyDrop::into_inner(x); drop(b); true }
    pub fn st_v_md_take<T>(a: T) -> bool { let mut x = mem::ManuallyDrop::new(a); let _y = unsafe { mem::ManuallyDrop::take(&mut x) }; true }
    pub fn st_v_mu<T>(a: T) -> bool { let x = mem::MaybeUninit::new(a); let _y = unsafe { x.assume_init() }; true }
    pub fn st_v_mu_write<T>(a: T) -> bool { let mut x = mem::MaybeUninit::<T>::uninit(); unsafe { x.as_mut_ptr().write(a); x.as_ptr().read(); } true }
    pub fn st_v_question<T>(a: Option<T>, b: Option<T>) -> bool {
        fn f<T>(a: Option<T>, b: Option<T>) -> Option<(T, T)> { Some((a?, b?)) }
        let s = a.is_some() && b.is_some();
        f(a, b).is_some() == s
    }
    pub fn st_v_match<T>(a: Option<T>, b: T) -> bool { let x = match a { Some(y) => y, None => return true }; drop(x); drop(b); true }
    pub fn st_v_closure<T>(a: T, k: bool) -> bool { let f = move || a; if k { let _x = f(); } true }
    pub fn st_v_closure_ref<T>(a: T) -> bool { let mut s = Some(a); let mut f = || s.take(); let x = f(); let y = f(); x.is_some() && y.is_none() }
    pub fn st_v_tuple<T>(a: T, b: T) -> bool { let t = (a, b, 3); let (x, _, z) = t; drop(x); z == 3 }
    pub fn st_v_if<T>(a: T, b: T, k: bool) -> bool { let x = if k { a } else { b }; drop(x); true }
    pub fn st_v_loop<T>(a: T) -> bool { let mut x = Some(a); let mut n = 0; while let Some(y) = x.take() { n += 1; if n < 3 { x = Some(y) } } n == 3 }
    pub fn st_v_vec<T>(a: T, b: T) -> bool { let mut v = std::vec::Vec::new(); v.push(a); v.push(b); v.len() == 2 && !v.is_empty() && v.capacity() >= 2 }
    pub fn st_v_vec_pop<T>(a: T) -> bool { let mut v = std::vec::Vec::with_capacity(4); v.push(a); let x = v.pop(); x.is_some() && v.pop().is_none() && v.len() == 0 }
    pub fn st_v_vec_iter<T>(a: T, b: T) -> bool { let mut v = std::vec::Vec::new(); v.extend(Some(a)); v.extend(Some(b)); let mut n = 0; n += v.len(); n == 2 }
    pub fn st_v_vec_clear<T>(a: T) -> bool { let mut v = std::vec::Vec::new(); v.push(a); v.clear(); v.is_empty() }
    pub fn st_v_box<T>(a: T) -> bool { let b = std::boxed::Box::new(a); let _c = *b; true }
}
