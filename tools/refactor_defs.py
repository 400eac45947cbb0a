"""Edits that keep the behaviour. No check may alarm on any of them.
name -> list of (file, old, new); every old text must occur exactly once (or the count given)."""
C = 'src/circular_buffer/circular.rs'
CI = 'src/circular_buffer/iter.rs'
K = 'src/counter/counter.rs'
D = 'src/disjoint_set/disjoint_set.rs'
B = 'src/interval/bounds.rs'
I = 'src/interval/interval.rs'
IC = 'src/interval/interval_cmp.rs'
IM = 'src/interval/interval_math.rs'

R = {}

R['buf-modular'] = ('B', [
    (C, '''        for _ in 0..capacity+1 {
            buffer.push(MaybeUninit::uninit());
        }
        Self {''', '''        buffer.resize_with(capacity + 1, MaybeUninit::uninit);
        Self {'''),
    (C, '''        if self.start <= self.end {
            self.end - self.start
        } else {
            self.buffer.len() + self.end - self.start
        }''', '''        (self.buffer.len() + self.end - self.start) % self.buffer.len()'''),
    (C, '''        self.len() == self.capacity()
    }''', '''        (self.end + 1) % self.buffer.len() == self.start
    }'''),
    (C, '''        if self.start + index < self.buffer.len(){
            self.start + index
        } else {
            index + self.start - self.buffer.len()
        }
''', '''        (self.start + index) % self.buffer.len()
'''),
    (C, '''        self.end += 1;
        if self.end == self.buffer.len(){
            self.end = 0;
        }''', '''        self.end = (self.end + 1) % self.buffer.len();'''),
    (C, '''        self.end = if self.end == 0 {
            self.buffer.len() - 1
        } else {
            self.end - 1
        }''', '''        let n = self.buffer.len();
        self.end = (self.end + n - 1) % n;'''),
    (C, '''        while let Some(val) = self.pop_back() {
            drop(val)
        }''', '''        while let Some(val) = self.pop_front() {
            drop(val)
        }
        self.start = 0;
        self.end = 0;'''),
    (C, '''        for a in 0..self.len()/2 {
            let b = self.len() - a - 1;
            self.buffer.swap(self.internal_index(a), self.internal_index(b));
        }''', '''        if self.len() < 2 {
            return;
        }
        let (mut a, mut b) = (0, self.len() - 1);
        while a < b {
            self.swap(a, b);
            a += 1;
            b -= 1;
        }'''),
    (C, '''        self.extend(other.drain())
''', '''        while let Some(x) = other.pop_front() {
            self.push_back(x);
        }
'''),
    (C, '''fn eq(&self, other: &Self) -> bool {
       self.iter().eq(other.iter())
''', '''fn eq(&self, other: &Self) -> bool {
       self.len() == other.len() && self.iter().zip(other.iter()).all(|(a, b)| a == b)
'''),
    (C, '''        self.iter().cmp(other.iter())
''', '''        for (a, b) in self.iter().zip(other.iter()) {
            match a.cmp(b) {
                Ordering::Equal => {}
                o => return o,
            }
        }
        self.len().cmp(&other.len())
'''),
    (C, '''        self.iter().partial_cmp(other.iter())
''', '''        for (a, b) in self.iter().zip(other.iter()) {
            match a.partial_cmp(b) {
                Some(Ordering::Equal) => {}
                o => return o,
            }
        }
        self.len().partial_cmp(&other.len())
'''),
    (C, '''            Some(&self[0])
''', '''            self.iter().next()
'''),
    (C, '''            Some(&self[self.len()-1])
''', '''            self.iter().next_back()
'''),
])

R['buf-unsafe'] = ('B', [
    (C, '''        if self.is_full(){
            if self.capacity() == 0 {
                return;
            } else {
                self.pop_front();
            }
        }
        self.push_at(val, self.end);
        self.incr_end();''', '''        if self.capacity() == 0 {
            return;
        }
        let evicted = if self.is_full() { self.pop_front() } else { None };
        self.push_at(val, self.end);
        self.incr_end();
        drop(evicted);'''),
    (C, '''        if self.is_full(){
            if self.capacity() == 0 {
                return;
            } else {
                self.pop_back();
            }
        }
        self.decr_start();
        self.push_at(val, self.start);''', '''        if self.capacity() == 0 {
            return;
        }
        let evicted = if self.is_full() { self.pop_back() } else { None };
        self.decr_start();
        self.push_at(val, self.start);
        drop(evicted);'''),
    (C, '''        while let Some(val) = self.pop_back() {
            drop(val)
        }''', '''        let (a, b) = self.slices_mut();
        let (a, b) = (a as *mut [T], b as *mut [T]);
        //forget the elements first, so that nothing is dropped twice if a destructor panics
        self.start = 0;
        self.end = 0;
        unsafe {
            ::std::ptr::drop_in_place(a);
            ::std::ptr::drop_in_place(b);
        }'''),
    (C, '''        self.clear();
    }
}''', '''        if ::std::mem::needs_drop::<T>() {
            self.clear();
        }
    }
}'''),
    (C, '''        let tmp = replace(&mut self.buffer[index], MaybeUninit::uninit());
        //only occupied, so initialized, elements are popped
        unsafe{tmp.assume_init()}''', '''        let _: fn(&mut u8, u8) -> u8 = replace;
        //only occupied, so initialized, elements are popped
        unsafe{::std::ptr::read(self.buffer[index].as_ptr())}'''),
    (C, '''        self.buffer[index] = MaybeUninit::new(val);''', '''        unsafe{::std::ptr::write(self.buffer[index].as_mut_ptr(), val)}'''),
    (C, '''        let mut new_buf = Vec::with_capacity(capacity+1);
        let to_be_skipped''', '''        if capacity == self.capacity() {
            return;
        }
        let mut new_buf = Vec::with_capacity(capacity+1);
        let to_be_skipped'''),
    (C, '''        self.buffer.rotate_left(self.start);
        self.end = self.len();
        self.start = 0;''', '''        if self.start > self.end {
            let n = self.len();
            self.buffer.rotate_left(self.start);
            self.start = 0;
            self.end = n;
        }'''),
    (C, '''unsafe{transmute(&mut self.buffer[..self.end])}''', '''let (s, e) = (self.start, self.end);
        unsafe{transmute(&mut self.buffer[s..e])}'''),
    (CI, '''        self.buf.pop_front()
    }
}

///An iterator that moves''', '''        self.buf.pop_front()
    }

    fn size_hint(&self) -> (usize, Option<usize>) {
        let n = self.buf.len();
        (n, Some(n))
    }
}

///An iterator that moves'''),
])

R['buf-shape'] = ('B', [
    (C, '''        Self::with_capacity(capacity)
    }

    /**''', '''        Self::allocate(capacity)
    }

    fn allocate(capacity: usize) -> Self {
        let slots: Vec<MaybeUninit<T>> = (0..capacity + 1).map(|_| MaybeUninit::uninit()).collect();
        Self { buffer: slots.into_boxed_slice(), start: 0, end: 0 }
    }

    /**'''),
    (C, '''
        let mut buffer = Vec::with_capacity(capacity+1);
        for _ in 0..capacity+1 {
            buffer.push(MaybeUninit::uninit());
        }
        Self {
            buffer: buffer.into_boxed_slice(),
            start: 0,
            end: 0
        }
''', '''        Self::allocate(capacity)
'''),
    (C, '''        let mut new_buf = Vec::with_capacity(capacity+1);
        let to_be_skipped = if self.len()>capacity{
            self.len() - capacity
        } else {
            0
        };
        new_buf.extend(self.drain().skip(to_be_skipped).map(|x| MaybeUninit::new(x)));
        let elem_num = new_buf.len();
        for _ in 0..capacity -new_buf.len() + 1{
            new_buf.push(MaybeUninit::uninit());
        }
        new_buf.shrink_to_fit();
        self.buffer = new_buf.into_boxed_slice();
        self.start = 0;
        self.end = elem_num;''', '''        while self.len() > capacity {
            self.pop_front();
        }
        let mut other = Self::allocate(capacity);
        other.append(self);
        ::std::mem::swap(self, &mut other);'''),
    (C, '''        let mut result = Self::with_capacity(self.capacity());
        result.extend(self.iter().cloned());
        result''', '''        let mut result = Self::with_capacity(self.capacity());
        for x in self.iter() {
            result.push_back(x.clone());
        }
        result'''),
    (C, '''        let mut buf = Vec::from_iter(iter.into_iter().map(|x| MaybeUninit::new(x)));
        buf.push(MaybeUninit::uninit());
        buf.shrink_to_fit();

        let end = buf.len() -1;
        Self {
            buffer: buf.into_boxed_slice(),
            start: 0,
            end
        }''', '''        let all: Vec<T> = iter.into_iter().collect();
        let mut result = Self::allocate(all.len());
        for x in all {
            result.push_back(x);
        }
        result'''),
    (C, '''        let mut buf = Vec::from_iter(iter.into_iter().map(|x| MaybeUninit::new(x.clone())));
        buf.push(MaybeUninit::uninit());
        buf.shrink_to_fit();
        let end = buf.len() -1;
        Self {
            buffer: buf.into_boxed_slice(),
            start: 0,
            end
        }''', '''        iter.into_iter().cloned().collect()'''),
    (C, '''        for el in iter{
            self.push_back(el.clone());
        }''', '''        self.extend(iter.into_iter().cloned())'''),
    (C, '''        self.buffer.swap(self.internal_index(a), self.internal_index(b));
    }

    /**
    Reverses''', '''        let (x, y) = (self.internal_index(a), self.internal_index(b));
        if x == y {
            return;
        }
        self.buffer.swap(x, y);
    }

    /**
    Reverses'''),
    (C, '''        for a in 0..self.len()/2 {
            let b = self.len() - a - 1;
            self.buffer.swap(self.internal_index(a), self.internal_index(b));
        }''', '''        self.linearize().reverse()'''),
    (C, '''        unsafe{&*self.buffer[self.internal_index(index)].as_ptr()}''', '''        let (a, b) = self.slices();
        if index < a.len() {
            &a[index]
        } else {
            &b[index - a.len()]
        }'''),
    (C, '''        let (a,b) = self.slices();
        a.iter().chain(b.iter())''', '''        let (front, back) = self.slices();
        let back = back.iter();
        front.iter().chain(back)'''),
    (CI, '''impl <T> Iterator for IntoIter<T>{
    type Item = T;
''', '''impl <T> Iterator for IntoIter<T>{
    type Item = T;

    fn size_hint(&self) -> (usize, Option<usize>) {
        let n = self.buf.len();
        (n, Some(n))
    }
'''),
])

SUBBODY = '''            match self.counter.entry(key) {
                Entry::Occupied(mut entry) => {
                    if entry.get() <= &val {
                        entry.remove();
                    } else {
                        let new_val = entry.get() - val;
                        entry.insert(new_val);
                    }
                }
                Entry::Vacant(..) => {
                    //do nothing - discard
                }
            }
'''
R['cnt-lookup'] = ('C', [
    (K, '''use std::collections::hash_map::Entry;
''', ''),
    (K, '''        *self.counter.entry(val).or_insert(0) += 1;
''', '''        match self.counter.get_mut(&val) {
            Some(n) => *n += 1,
            None => {
                self.counter.insert(val, 1);
            }
        }
'''),
    (K, SUBBODY, '''            let left = match self.counter.get(&key) {
                Some(&n) => n.saturating_sub(val),
                None => continue,
            };
            if left == 0 {
                self.counter.remove(&key);
            } else {
                *self.counter.get_mut(&key).unwrap() = left;
            }
'''),
    (K, SUBBODY.replace('entry(key)', 'entry(key.clone())'), '''            let left = match self.counter.get(key) {
                Some(n) if n > val => n - val,
                Some(_) => 0,
                None => continue,
            };
            if left == 0 {
                self.counter.remove(key);
            } else {
                self.counter.insert(key.clone(), left);
            }
'''),
    (K, '''        for (ref key, val) in rhs.iter() {
''' + SUBBODY.replace('entry(key)', 'entry((*key).clone())') + '''        }
        self''', '''        self -= rhs;
        self'''),
    (K, '''        for (ref key, val) in rhs.iter() {
            *self.entry((*key).clone()).or_insert(0) += *val;
        }
        self''', '''        self += rhs;
        self'''),
    (K, '''        res.sort_unstable_by_key(|&(ref _key, val)| ::std::usize::MAX - val);
        res
    }

    /**''', '''        res.sort_by(|a, b| b.1.cmp(&a.1));
        res
    }

    /**''', 2),
    (K, '''        let mut cnt = Self::with_capacity(iter.size_hint().0);
        for key in iter {
            cnt.push(key);
        }
        cnt''', '''        let mut cnt = Self::with_capacity(iter.size_hint().0);
        iter.for_each(|key| cnt.push(key));
        cnt'''),
    (K, '''        self.counter.reserve(iter.size_hint().0);
        for key in iter.map(|&key| key) {
            self.push(key);
        }''', '''        for key in iter {
            self.push(*key);
        }'''),
    (K, '''            counter: HashMap::from_iter(rhs.iter().map(|(ref key, &val)| ((*key).clone(), val))),
''', '''            counter: rhs.iter().map(|(k, n)| (k.clone(), *n)).collect(),
'''),
    (K, '''            counter: HashMap::from_iter(rhs.into_iter()),
''', '''            counter: {
                let mut m = HashMap::with_capacity_and_hasher(rhs.len(), S2::default());
                m.extend(rhs);
                m
            },
'''),
])

R['cnt-retain'] = ('C', [
    (K, '''        for (key, val) in rhs.into_iter() {
''' + SUBBODY + '''        }
''', '''        self.counter.retain(|key, n| {
            let gone = rhs.counter.get(key).cloned().unwrap_or(0);
            *n = if *n > gone { *n - gone } else if gone == 0 && !rhs.counter.contains_key(key) { return true } else { 0 };
            *n > 0
        });
'''),
    (K, '''            *self.counter.entry((*key).clone()).or_insert(0) += val;
''', '''            if let Some(n) = self.counter.get_mut(*key) {
                *n += val;
                continue;
            }
            self.counter.insert((*key).clone(), val);
'''),
    (K, '''        for (key, val) in rhs.into_iter() {
            *self.counter.entry(key).or_insert(0) += val;
        }''', '''        rhs.into_iter().for_each(|(key, val)| match self.counter.entry(key) {
            Entry::Occupied(mut e) => *e.get_mut() += val,
            Entry::Vacant(e) => {
                e.insert(val);
            }
        });'''),
    (K, '''        let mut res: Vec<(T, usize)> = self.counter
            .iter()
            .map(|(key, &val)| ((*key).clone(), val))
            .collect();
''', '''        let mut res: Vec<(T, usize)> = Vec::with_capacity(self.counter.len());
        for (key, val) in &self.counter {
            res.push((key.clone(), *val));
        }
'''),
    (K, '''        let mut cnt = Self::with_capacity(iter.size_hint().0);
        for key in iter.map(|ref key| (*key).clone()) {
            cnt.push(key);
        }
        cnt''', '''        Self::from_iter(iter.cloned())'''),
])

FIND = '''        let mut parent = data_by_id[id].parent;
        if parent != id{
            parent = Self::find_with_path_compression(data_by_id, parent);
            data_by_id[id].parent = parent;
        }
        parent'''
R['dsu-two-pass'] = ('D', [
    (D, FIND, '''        let mut root = id;
        while data_by_id[root].parent != root {
            root = data_by_id[root].parent;
        }
        let mut at = id;
        while data_by_id[at].parent != root && at != root {
            let next = data_by_id[at].parent;
            data_by_id[at].parent = root;
            at = next;
        }
        root'''),
    (D, '''        let next_id = self.ids.len();''', '''        let next_id = self.data_by_id.len();'''),
    (D, '''        if self.data_by_id[a_root].rank < self.data_by_id[b_root].rank {
            let tmp = a_root;
            a_root = b_root;
            b_root = tmp;
        }''', '''        if self.data_by_id[a_root].rank < self.data_by_id[b_root].rank {
            ::std::mem::swap(&mut a_root, &mut b_root);
        }'''),
    (D, '''            map.entry(root).or_insert_with(|| Vec::new()).push(key);''', '''            match map.entry(root) {
                Entry::Occupied(mut e) => e.get_mut().push(*key),
                Entry::Vacant(e) => {
                    e.insert(vec![*key]);
                }
            }'''),
    (D, '''        match self.sets.next() {
            Option::None => None,
            Option::Some((_key, vect)) => Some(vect.into_iter())
        }''', '''        self.sets.next().map(|(_, group)| group.into_iter())'''),
    (D, '''        self.ids.clear();
        self.data_by_id.clear()''', '''        self.data_by_id.clear();
        self.ids.clear();'''),
])
R['dsu-halving'] = ('D', [
    (D, FIND, '''        let mut id = id;
        while data_by_id[id].parent != id {
            let up = data_by_id[data_by_id[id].parent].parent;
            data_by_id[id].parent = up;
            id = up;
        }
        id'''),
])
R['dsu-splitting-size'] = ('D', [
    (D, FIND, '''        let mut id = id;
        while data_by_id[id].parent != id {
            let next = data_by_id[id].parent;
            data_by_id[id].parent = data_by_id[next].parent;
            id = next;
        }
        id'''),
    (D, '''            parent: id,
            rank: 0''', '''            parent: id,
            rank: 1'''),
    (D, '''        if self.data_by_id[a_root].rank == self.data_by_id[b_root].rank {
            self.data_by_id[a_root].rank += 1;
        }''', '''        self.data_by_id[a_root].rank += self.data_by_id[b_root].rank;'''),
    (D, '''        for val in iter {
            self.make_set(val)
        }''', '''        iter.for_each(|val| self.make_set(val))'''),
    (D, '''        self.reserve(iter.size_hint().0);
        for val in iter.map(|&val| val.clone()) {
            self.make_set(val);
        }''', '''        self.extend(iter.cloned())'''),
    (D, '''        let b = match self.ids.get(b) {
            Option::None => return false,
            Option::Some(id) => *id
        };
''', '''        let b = match self.ids.get(b) {
            Option::None => return false,
            Option::Some(id) => *id
        };
        if a == b {
            return true;
        }
'''),
])

R['int-bounds'] = ('I', [
    (B, '''impl<T> PartialOrd for LowerBound<T> where T: Ord {
    fn partial_cmp(&self, other: &Self) -> Option<Ordering> {
        match self.val().cmp(other.val()) {
            Greater => Some(Greater),
            Less => Some(Less),
            Equal => {
                if self.is_closed() == other.is_closed() {
                    Some(Equal)
                } else {
                    if self.is_closed() {
                        Some(Less)
                    } else {
                        Some(Greater)
                    }
                }
            }
        }
    }''', '''impl<T> PartialOrd for LowerBound<T> where T: Ord {
    fn partial_cmp(&self, other: &Self) -> Option<Ordering> {
        Some(self.cmp(other))
    }'''),
    (B, '''                if self.is_closed() == other.is_closed() {
                    Equal
                } else {
                    if self.is_closed() {
                        Less
                    } else {
                        Greater
                    }
                }''', '''                other.is_closed().cmp(&self.is_closed())'''),
    (B, '''impl<T> PartialOrd for UpperBound<T> where T: Ord {
    fn partial_cmp(&self, other: &Self) -> Option<Ordering> {
        match self.val().cmp(&other.val()) {
            Greater => Some(Greater),
            Less => Some(Less),
            Equal => {
                if self.is_closed() == other.is_closed() {
                    Some(Equal)
                } else {
                    if self.is_closed() {
                        Some(Greater)
                    } else {
                        Some(Less)
                    }
                }
            }
        }
    }''', '''impl<T> PartialOrd for UpperBound<T> where T: Ord {
    fn partial_cmp(&self, other: &Self) -> Option<Ordering> {
        Some(self.cmp(other))
    }'''),
    (B, '''                if self.is_closed() == other.is_closed() {
                    Equal
                } else {
                    if self.is_closed() {
                        Greater
                    } else {
                        Less
                    }
                }''', '''                self.is_closed().cmp(&other.is_closed())'''),
    (B, '''    l.val() > u.val() || (u.val() == l.val() && !u.is_closed() && ! l.is_closed())''', '''    match u.val().cmp(l.val()) {
        Less => true,
        Equal => !(u.is_closed() || l.is_closed()),
        Greater => false
    }'''),
    (B, '''        self.val() < other || self.val() == other && self.is_closed()
    }

    fn gt(&self, other: &T) -> bool {
        self.val() > other || self.val() == other && !self.is_closed()
    }''', '''        if self.is_closed() { self.val() <= other } else { self.val() < other }
    }

    fn gt(&self, other: &T) -> bool {
        if self.is_closed() { self.val() > other } else { self.val() >= other }
    }'''),
    (I, '''        !(self.is_empty() || self > val || self < val)''', '''        match self.bounds() {
            Some((lo, up)) => lo <= val && up >= val,
            None => false
        }'''),
    (I, '''        l <= ol && u >= ou''', '''        !(ol < l || ou > u)'''),
    (I, '''        let (lo, up) = match self.bounds(){
            None => return true,
            Some(a) => a
        };
        let (olo, oup) = match other.bounds() {
            None => return true,
            Some(a) => a
        };
        !(up.is_separated_from(&olo) || oup.is_separated_from(&lo))''', '''        if self.is_empty() || other.is_empty() {
            return true;
        }
        let (lo, up) = self.bounds().unwrap();
        let (olo, oup) = other.bounds().unwrap();
        !olo.is_separated_from(up) && !lo.is_separated_from(oup)'''),
    (I, '''    pub fn into_merged(self, other: Self) -> Result<Self, (Self, Self)>{
        if ! self.can_be_merged(&other){
            return Err((self, other));
        }
        if other.is_empty(){
            return Ok(self);
        }
        if self.is_empty(){
            return Ok(other);
        }
        let (l1, u1) = self.into_bounds().unwrap();
        let (l2, u2) = other.into_bounds().unwrap();
        Ok(Self::from_bounds(l1.min(l2), u1.max(u2)))
    }''', '''    pub fn into_merged(self, other: Self) -> Result<Self, (Self, Self)>{
        if self.can_be_merged(&other) {
            Ok(self.into_span(other))
        } else {
            Err((self, other))
        }
    }'''),
    (I, '''        let s = self.imp.as_mut().unwrap();
        let mut o = other.imp.unwrap();
        if s.lo < o.lo {
            swap(&mut s.lo, &mut o.lo)
        }
        if s.up > o.up {
            swap(&mut s.up, &mut o.up)
        }''', '''        let s = self.imp.take().unwrap();
        let o = other.imp.unwrap();
        self.imp = Some(NonEmptyInterval { lo: s.lo.max(o.lo), up: s.up.min(o.up) });'''),
    (I, '''        let s = self.imp.as_mut().unwrap();
        let o = other .imp.as_mut().unwrap();
        if o.lo < s.lo {
            swap(&mut o.lo, &mut s.lo);
        }
        if o.up > s.up {
            swap(&mut s.up, &mut o.up);
        }''', '''        let (lo, up) = self.imp.take().map(|a| (a.lo, a.up)).unwrap();
        let (olo, oup) = other.into_bounds().unwrap();
        *self = Self::from_bounds(::std::cmp::min(lo, olo), ::std::cmp::max(oup, up));'''),
    (I, '''            a.lo.val() == a.up.val()
        } else {
            false
        }''', '''            a.lo.is_closed() && a.up.is_closed() && a.lo.val() == a.up.val()
        } else {
            false
        }'''),
    (I, '''        match &self.imp{
            None => None,
            Some(a) => Some(&a.up)
        }''', '''        self.imp.as_ref().map(|a| &a.up)'''),
    (I, '''                let l = if a.lo.is_closed() {'['} else {'('};
                let r = if a.up.is_closed() {']'} else {')'};
                write!(f, "{}{},{}{}", l, a.lo.val(), a.up.val(), r)''', '''                f.write_str(if a.lo.is_closed() {"["} else {"("})?;
                write!(f, "{},{}", a.lo.val(), a.up.val())?;
                f.write_str(if a.up.is_closed() {"]"} else {")"})'''),
])

R['int-ops'] = ('I', [
    (IC, '''        if self > other {
            return Some(Greater);
        }
        if self < other {
            return Some(Less);
        }
        if self == other {
            return Some(Equal);
        }
        None''', '''        if self < other {
            Some(Less)
        } else if self > other {
            Some(Greater)
        } else if self == other {
            Some(Equal)
        } else {
            None
        }'''),
    (IC, '''        match self.upper() {
            None => false,
            Some(s ) => match other.lower() {
                None => false,
                Some(o) => s < o
            }
        }''', '''        match (self.upper(), other.lower()) {
            (Some(s), Some(o)) => s < o,
            _ => false
        }'''),
    (IC, '''        match self.lower() {
            None => false,
            Some(s ) => match other.upper() {
                None => false,
                Some(o) => s >= o
            }
        }''', '''        other <= self'''),
    (IC, '''        match self.upper(){
            None => false,
            Some(up) => up < val
        }''', '''        self.upper().map_or(false, |up| up < val)'''),
    (IC, '''            Some((a,b)) => a == val && b == val''', '''            Some((a,b)) => a.is_closed() && b.is_closed() && a.val() == val && b.val() == val'''),
    (IM, '''            a.up = a.up + rhs.clone();
            a.lo = a.lo + rhs;''', '''            a.lo = a.lo + rhs.clone();
            a.up = a.up + rhs;'''),
    (IM, '''            a.up = a.up * rhs.clone();
            a.lo = a.lo * rhs;
            let mut result = Self {imp: Some(a)};
            result.fix_after_modification();
            result
        } else {
            self
        }''', '''            a.up = a.up * rhs.clone();
            a.lo = a.lo * rhs;
            let (lo, loc) = a.lo.into_tuple();
            let (up, upc) = a.up.into_tuple();
            Self::create_friendly(lo, loc, up, upc)
        } else {
            self
        }'''),
    (IM, '''            a.lo -= rhs.clone();
            a.up -= rhs;
        }
        result.fix_after_modification();
        *self = result;''', '''            a.up -= rhs.clone();
            a.lo -= rhs;
        }
        result.fix_after_modification();
        *self = result;'''),
    (I, '''        let mut set_empty = false;
        if let Some(ref mut a) = self.imp {
            if a.lo.val() > a.up.val() {
                a.lo.swap(&mut a.up)
            }
            if a.lo.val() == a.up.val() && (!a.lo.is_closed() || !a.up.is_closed()){
                set_empty = true;
            }
        }
        if set_empty {
            self.imp = None;
        }''', '''        self.imp = match self.imp.take() {
            None => None,
            Some(mut a) => {
                if a.lo.val() > a.up.val() {
                    a.lo.swap(&mut a.up);
                }
                if a.lo.val() == a.up.val() && !(a.lo.is_closed() && a.up.is_closed()) {
                    None
                } else {
                    Some(a)
                }
            }
        };'''),
    (I, '''        if ! self.intersects(&other) {
            return Self::empty();
        }
        let (l1, u1) =  self.into_bounds().unwrap();
        let (l2, u2) = other.into_bounds().unwrap();
        Self::from_bounds(l1.max(l2), u1.min(u2))''', '''        let (l1, u1) =  self.into_bounds().unwrap();
        let (l2, u2) = other.into_bounds().unwrap();
        let (lo, loc) = l1.max(l2).into_tuple();
        let (up, upc) = u1.min(u2).into_tuple();
        if lo > up || lo == up && !(loc && upc) {
            return Self::empty();
        }
        Self::create_checked(lo, loc, up, upc)'''),
    (I, '''        if self.is_empty() || other.is_empty() || *self>other || *self < other {
            self.imp = None;
            return;
        }
        let s = self.imp.as_mut().unwrap();
        let mut o = other.imp.unwrap();
        if s.lo < o.lo {
            swap(&mut s.lo, &mut o.lo)
        }
        if s.up > o.up {
            swap(&mut s.up, &mut o.up)
        }''', '''        let me = ::std::mem::replace(self, Self::empty());
        *self = me.into_intersection(other);'''),
    (I, '''        if lo > up {
            panic!("Lower bound of an interval needs to be less than the upper one.");
        }
        if lo == up && (!loc || !upc) {
            panic!("Single elements need to have closed bounds.");
        }''', '''        match lo.cmp(&up) {
            ::std::cmp::Ordering::Greater => panic!("Lower bound of an interval needs to be less than the upper one."),
            ::std::cmp::Ordering::Equal => assert!(loc && upc, "Single elements need to have closed bounds."),
            ::std::cmp::Ordering::Less => {}
        }'''),
    (I, '''        if ! self.can_be_merged(&other) {
            return Err(other)
        }
        let s =''', '''        if self.is_empty() {
            *self = other;
            return Ok(());
        }
        if ! self.can_be_merged(&other) {
            return Err(other)
        }
        let s ='''),
    (B, '''    fn lt(&self, other: &LowerBound<T>) -> bool {
        match self.val().cmp(&other.val()) {
            Greater => false,
            Less => true,
            Equal => !self.is_closed() || !other.is_closed()
        }
    }''', '''    fn lt(&self, other: &LowerBound<T>) -> bool {
        self.val() < other.val() || (self.val() == other.val() && !(self.is_closed() && other.is_closed()))
    }'''),
])
