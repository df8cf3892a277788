#!/usr/bin/env python3
"""benign.py [NAME...]: which units still verify after edits that change no behaviour (development aid; works on a copy of /repo in /tmp/bn/repo)"""
import subprocess, sys, os, re, concurrent.futures as cf
sys.path.insert(0, '/verif')
import check, plan
G, E, I, U, B, D, W = 'src/generic.rs', 'src/generic/equiv_classes.rs', 'src/cycle_safe.rs', 'src/utils.rs', 'src/basic.rs', 'src/deep_safe.rs', 'src/wide_safe.rs'
EDITS = {
 'main-early': (G, '''            if try_into!(self.descend_mode.do_traverse()) && a.id() != b.id() {
                cmp = a.equiv_modulo_edges(&b);
                if cmp.is_equiv() {''', '''            if !try_into!(self.descend_mode.do_traverse()) || a.id() == b.id() {
                return Ok(cmp);
            }
            {
                cmp = a.equiv_modulo_edges(&b);
                if cmp.is_equiv() {'''),
 'main-question': (G, '''                            if try_into!(self.descend_mode.do_edges(a, b)) {
                                cmp = try_into!(P::RecurMode::recur(self, edges_iter));
                            }''', '''                            match self.descend_mode.do_edges(a, b) {
                                Ok(true) => match P::RecurMode::recur(self, edges_iter) {
                                    Ok(c) => cmp = c,
                                    Err(e) => return Err(e.into()),
                                },
                                Ok(false) => {},
                                Err(e) => return Err(e.into()),
                            }'''),
 'main-helper': (G, '''            if try_into!(self.descend_mode.do_traverse()) && a.id() != b.id() {
                cmp = a.equiv_modulo_edges(&b);
                if cmp.is_equiv() {
                    let mut edges_iter = EdgesIter::new([a, b]);
                    match edges_iter.next_no_adv() {
                        Some(Ok(_)) => {
                            #[allow(clippy::shadow_unrelated)]
                            let [a, b] = &edges_iter.counterparts;
                            if try_into!(self.descend_mode.do_edges(a, b)) {
                                cmp = try_into!(P::RecurMode::recur(self, edges_iter));
                            }
                        },
                        Some(Err(cmp_amount_edges)) => cmp = cmp_amount_edges,
                        None => (),
                    }
                }
            }

            Ok(cmp)
        }
''', '''            if try_into!(self.descend_mode.do_traverse()) && a.id() != b.id() {
                cmp = a.equiv_modulo_edges(&b);
                if cmp.is_equiv() {
                    return self.equiv_edges(a, b);
                }
            }

            Ok(cmp)
        }

        fn equiv_edges(&mut self, a: P::Node, b: P::Node) -> Result<<P::Node as Node>::Cmp, P::Error>
        {
            let mut edges_iter = EdgesIter::new([a, b]);
            match edges_iter.next_no_adv() {
                Some(Ok(_)) => {
                    let [a, b] = &edges_iter.counterparts;
                    if self.descend_mode.do_edges(a, b).map_err(Into::into)? {
                        return P::RecurMode::recur(self, edges_iter).map_err(Into::into);
                    }
                    Ok(Cmp::new_equiv())
                },
                Some(Err(cmp_amount_edges)) => Ok(cmp_amount_edges),
                None => Ok(Cmp::new_equiv()),
            }
        }
'''),
 'equiv-loop': (G, '''                match self.equiv_main(a, b) {
                    Ok(cmp) if cmp.is_equiv() => match self.recur_mode.next() {
                        Some(Ok([an, bn])) => {
                            a = an;
                            b = bn;
                        },
                        Some(Err(cmp_amount_edges)) => return Ok(cmp_amount_edges),
                        None => return Ok(cmp),
                    },
                    result => return result,
                }''', '''                let cmp = self.equiv_main(a, b)?;
                if !cmp.is_equiv() {
                    return Ok(cmp);
                }
                match self.recur_mode.next() {
                    None => return Ok(cmp),
                    Some(Err(cmp_amount_edges)) => return Ok(cmp_amount_edges),
                    Some(Ok(next)) => [a, b] = next,
                }'''),
 'next-early': (G, '''            if let Some(i) = &self.next_index {
                let [a, b] = &self.counterparts;
                match [a.get_edge(i), b.get_edge(i)] {
                    [Some(ae), Some(be)] => {
                        if advance {
                            self.next_index = increment_index(i);
                        }
                        Some(Ok([ae, be]))
                    },
                    [None, None] => {
                        if advance {
                            self.next_index = None;
                        }
                        None
                    },
                    [None, Some(_)] => Some(Err(N::Cmp::from_ord(Ordering::Less))),
                    [Some(_), None] => Some(Err(N::Cmp::from_ord(Ordering::Greater))),
                }
            }
            else {
                None
            }''', '''            let i = self.next_index.as_ref()?;
            let [a, b] = &self.counterparts;
            let ae = a.get_edge(i);
            let be = b.get_edge(i);
            match (ae, be) {
                (Some(ae), Some(be)) => {
                    if advance {
                        self.next_index = increment_index(i);
                    }
                    Some(Ok([ae, be]))
                },
                (None, None) => {
                    if advance {
                        self.next_index = None;
                    }
                    None
                },
                (None, Some(_)) => Some(Err(N::Cmp::from_ord(Ordering::Less))),
                (Some(_), None) => Some(Err(N::Cmp::from_ord(Ordering::Greater))),
            }'''),
 'next-helper': (G, '''                    [None, Some(_)] => Some(Err(N::Cmp::from_ord(Ordering::Less))),
                    [Some(_), None] => Some(Err(N::Cmp::from_ord(Ordering::Greater))),
                }
            }
            else {
                None
            }
        }
''', '''                    [None, Some(_)] => Self::unequal_amounts(Ordering::Less),
                    [Some(_), None] => Self::unequal_amounts(Ordering::Greater),
                }
            }
            else {
                None
            }
        }

        fn unequal_amounts(ord: Ordering) -> Option<<Self as Iterator>::Item>
        {
            Some(Err(N::Cmp::from_ord(ord)))
        }
'''),
 'inter-match': (I, '''                let r = if self.ticker >= 0 {
                    true
                }''', '''                let r = if !self.ticker.is_negative() {
                    true
                }'''),
 'inter-early': (I, '''                // "fast" phase
                let r = if self.ticker >= 0 {
                    true
                }
                // "slow" limit reached, change to "fast" phase
                else if self.ticker < Self::SLOW_LIMIT_NEG {''', '''                // "fast" phase
                if self.ticker >= 0 {
                    return Ok(true);
                }
                // "slow" limit reached, change to "fast" phase
                let r = if self.ticker < Self::SLOW_LIMIT_NEG {'''),
 'inter-helper': (I, '''                else if self.equiv_classes.same_class(&a.id(), &b.id()) {''', '''                else if Self::known(&mut self.equiv_classes, a.id(), b.id()) {'''),
 'classes-tuple': (E, '''            let (larger_rep, smaller_rep);

            if aw >= bw {
                larger_rep = ar;
                smaller_rep = br;
            }
            else {
                larger_rep = br;
                smaller_rep = ar;
            }
''', '''            let (larger_rep, smaller_rep) = if aw < bw { (br, ar) } else { (ar, br) };
'''),
 'classes-helper': (E, '''            Class::set_rep(&larger_rep, aw.saturating_add(bw));
            Class::set_link(&smaller_rep, larger_rep);

            false
        }
    }
''', '''            Self::unite(larger_rep, &smaller_rep, aw.saturating_add(bw));
            false
        }
    }

    fn unite(larger: T::Rc, smaller: &T::Rc, weight: usize)
    {
        Class::set_rep(&larger, weight);
        Class::set_link(smaller, larger);
    }
'''),
 'classes-while': (E, '''                let mut cur = R::clone(it);
                loop {
                    let next_inner = Self::clone_inner(&next);
                    match next_inner {
                        Self::Representative { weight } => break (next, weight),

                        Self::Link { next: next_next } => {
                            cur.set(Self::Link { next: R::clone(&next_next) });
                            cur = next;
                            next = next_next;
                        },
                    }
                }''', '''                let mut cur = R::clone(it);
                loop {
                    match Self::clone_inner(&next) {
                        Self::Link { next: next_next } => {
                            Self::set_link(&cur, R::clone(&next_next));
                            cur = core::mem::replace(&mut next, next_next);
                        },
                        Self::Representative { weight } => return (next, weight),
                    }
                }'''),
 'classes-order': (E, '''            (Some(ac), None) => {
                let ac = &T::Rc::clone(ac); // To end borrow of `self`.
                self.some_seen(ac, bk);
                false
            },
            (None, Some(bc)) => {
                let bc = &T::Rc::clone(bc); // To end borrow of `self`.
                self.some_seen(bc, ak);
                false
            },
            (Some(ac), Some(bc)) => Self::all_seen(ac, bc),''', '''            (Some(ac), Some(bc)) => Self::all_seen(ac, bc),
            (Some(c), None) => {
                let c = T::Rc::clone(c);
                self.some_seen(&c, bk);
                false
            },
            (None, Some(c)) => {
                let c = T::Rc::clone(c);
                self.some_seen(&c, ak);
                false
            },'''),
 'lazy-loop': (U, '''            while let Some(subiter) = self.next_subiter_as_mut() {
                let next = subiter.next();
                if !subiter.has_next() {
                    drop(self.next_subiter()); // Remove empty iterators, before returning `Some`.
                }
                if next.is_some() {
                    return next;
                }
            }
            None''', '''            loop {
                let subiter = self.next_subiter_as_mut()?;
                let next = subiter.next();
                let exhausted = !subiter.has_next();
                if exhausted {
                    let _empty = self.next_subiter();
                }
                if let Some(item) = next {
                    return Some(item);
                }
            }'''),
 'call-while': (B, '''                for next in edges_iter {
                    match next {
                        Ok([a, b]) => match it.equiv_main(a, b) {
                            Ok(cmp) if cmp.is_equiv() => (),
                            result => return result,
                        },
                        Err(cmp_amount_edges) => return Ok(cmp_amount_edges),
                    }
                }
                Ok(Cmp::new_equiv())''', '''                let mut edges = edges_iter;
                while let Some(next) = edges.next() {
                    let cmp = match next {
                        Ok([a, b]) => it.equiv_main(a, b)?,
                        Err(cmp_amount_edges) => cmp_amount_edges,
                    };
                    if !cmp.is_equiv() {
                        return Ok(cmp);
                    }
                }
                Ok(Cmp::new_equiv())'''),
 'limited-checked': (B, None, None),
 'precheck-if': (G, '''            match e.equiv(a.clone(), b.clone()) {
                Ok(cmp) => Ok(cmp),
                Err(PrecheckError::RecurError(e)) => Err(e),
                Err(PrecheckError::LimitReached) => {
                    let mut e: Equiv<InterleaveArgs<N, P>> = e.into();
                    e.equiv(a, b).map_err(|InterleaveError(error)| error)
                },
            }''', '''            let prechecked = e.equiv(a.clone(), b.clone());
            if let Err(PrecheckError::LimitReached) = prechecked {
                let mut full = Equiv::<InterleaveArgs<N, P>>::from(e);
                return match full.equiv(a, b) {
                    Ok(cmp) => Ok(cmp),
                    Err(InterleaveError(error)) => Err(error),
                };
            }
            match prechecked {
                Ok(cmp) => Ok(cmp),
                Err(PrecheckError::RecurError(error)) => Err(error),
                Err(PrecheckError::LimitReached) => unreachable!(),
            }'''),
}
EDITS.pop('limited-checked')
for m in re.finditer(r'@@@ (\S+) (\S+)\n((?:<<<\n.*?>>>\n)+)', open('/verif/tools/edits.txt').read(), re.S):
    EDITS[m.group(1)] = (m.group(2), re.findall(r'<<<\n(.*?)\n===\n(.*?)\n>>>\n', m.group(3), re.S), None)
def main():
    R, X = '/tmp/bn/repo', check.build_extractor()
    check.REPO = R
    check.B = '/tmp/bn/b'
    os.makedirs('/tmp/bn/b', exist_ok=True)
    units = []
    for p in plan.PROPS.values():
        for u in p.get('units', []):
            if u not in units: units.append(u)
    units = [u for u in units if not (u[0] == 'inter' and 'FN=cycle_safe' in u and 'F=equiv' in u)] if os.environ.get('FEW') else units
    for n in sys.argv[1:] or EDITS:
        f, old, new = EDITS[n]
        subprocess.run(['git', '-C', R, 'checkout', '-q', '--', '.'], check=True)
        s = open(f'{R}/{f}').read()
        if n == 'inter-helper':
            s = s.replace('        impl<E, I, T> DescendMode<E> for Interleave<I>', '''        impl<P: Params> Interleave<P>
        {
            fn known(classes: &mut EquivClasses<P::Table>, a: <<P::Table as Table>::Node as crate::Node>::Id, b: <<P::Table as Table>::Node as crate::Node>::Id) -> bool
            {
                classes.same_class(&a, &b)
            }
        }

        impl<E, I, T> DescendMode<E> for Interleave<I>''', 1)
        for o, w in (old if isinstance(old, list) else [(old, new)]):
            assert o in s, (n, o)
            s = s.replace(o, w, 1)
        open(f'{R}/{f}', 'w').write(s)
        w = f'/tmp/bn/w'
        os.makedirs(w, exist_ok=True)
        try:
            check.expand(w + '/x.rs')
        except check.Undecided as x:
            print(n, 'DOES NOT BUILD', str(x)[-600:]); continue
        with cf.ThreadPoolExecutor(5) as ex:
            rs = list(ex.map(lambda u: check.run_unit(X, w + '/x.rs', w, u[0], list(u[1:]), False), units))
        bad = {}
        for r in rs:
            if r['status'] != 'ok': bad.setdefault((r['status'], re.sub(r'/tmp\S+|\d+', '', r['detail'])[:230]), []).append(r['unit'])
        print(n, 'ok' if not bad else '', *[f'\n   {k[0]}: {k[1]}\n      {" ".join(v)}' for k, v in bad.items()], flush=True)
    subprocess.run(['git', '-C', R, 'checkout', '-q', '--', '.'], check=True)
if __name__ == '__main__':
    main()
