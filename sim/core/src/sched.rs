//! The scheduler: tasks are real threads, of which exactly one holds the baton at any time.
//! Who gets it next is read from the plan's list of choices and from nothing else.

use std::sync::{Condvar, Mutex};

pub struct Sched {
    st: Mutex<St>,
    cv: Vec<Condvar>,
}
struct St {
    current: usize,
    /// 0 = runnable, 1 = waiting for the lock, 2 = finished
    state: Vec<u8>,
    choices: Vec<u8>,
    pos: usize,
    lock_held_by: Option<usize>,
    pub trace: u64,
    pub switches: u64,
    pub yields: u64,
}

pub struct SchedStats {
    pub trace: u64,
    pub switches: u64,
    pub yields: u64,
}

impl Sched {
    pub fn new(tasks: usize, choices: Vec<u8>) -> Self {
        Sched {
            st: Mutex::new(St {
                current: usize::MAX,
                state: vec![0; tasks],
                choices,
                pos: 0,
                lock_held_by: None,
                trace: 0,
                switches: 0,
                yields: 0,
            }),
            cv: (0..tasks).map(|_| Condvar::new()).collect(),
        }
    }
    fn choose(st: &mut St, me: usize, forced: bool) -> Option<usize> {
        // candidates in cyclic order starting with the current task
        let n = st.state.len();
        let mut first = 0;
        let mut c = 0u8;
        if st.pos < st.choices.len() {
            c = st.choices[st.pos];
        }
        st.pos += 1;
        if forced && c == 0 {
            c = 1;
        }
        let mut runnable = 0;
        for i in 0..n {
            if st.state[(me + i) % n] == 0 {
                if runnable == 0 {
                    first = (me + i) % n;
                }
                runnable += 1;
            }
        }
        if runnable == 0 {
            return None;
        }
        if runnable == 1 {
            return Some(first);
        }
        let mut k = c as usize % runnable;
        for i in 0..n {
            if st.state[(me + i) % n] == 0 {
                if k == 0 {
                    return Some((me + i) % n);
                }
                k -= 1;
            }
        }
        None
    }
    fn hand_over(&self, mut st: std::sync::MutexGuard<'_, St>, me: usize, next: usize) {
        if next != me {
            st.switches += 1;
            st.trace = crate::rng::mix(st.trace ^ ((st.pos as u64) << 8 | next as u64));
            st.current = next;
            self.cv[next].notify_one();
            while st.current != me {
                st = self.cv[me].wait(st).unwrap();
            }
        }
    }
    pub fn start(&self) {
        let mut st = self.st.lock().unwrap();
        let n = Self::choose(&mut st, 0, false).unwrap();
        st.current = n;
        self.cv[n].notify_one();
    }
    /// a task's first wait for the baton
    pub fn enter(&self, me: usize) {
        let mut st = self.st.lock().unwrap();
        while st.current != me {
            st = self.cv[me].wait(st).unwrap();
        }
    }
    pub fn yield_now(&self, me: usize, forced: bool) {
        let mut st = self.st.lock().unwrap();
        st.yields += 1;
        if let Some(n) = Self::choose(&mut st, me, forced) {
            self.hand_over(st, me, n);
        }
    }
    pub fn lock(&self, me: usize) {
        loop {
            let mut st = self.st.lock().unwrap();
            if st.lock_held_by.is_none() {
                st.lock_held_by = Some(me);
                return;
            }
            st.state[me] = 1;
            let n = Self::choose(&mut st, me, false).expect("the holder is runnable");
            self.hand_over(st, me, n);
        }
    }
    pub fn unlock(&self, me: usize) {
        let mut st = self.st.lock().unwrap();
        assert_eq!(st.lock_held_by, Some(me));
        st.lock_held_by = None;
        for s in st.state.iter_mut() {
            if *s == 1 {
                *s = 0;
            }
        }
    }
    pub fn finish(&self, me: usize) {
        let mut st = self.st.lock().unwrap();
        st.state[me] = 2;
        if let Some(n) = Self::choose(&mut st, me, false) {
            st.current = n;
            self.cv[n].notify_one();
        } else {
            st.current = usize::MAX;
        }
    }
    pub fn stats(&self) -> SchedStats {
        let st = self.st.lock().unwrap();
        SchedStats {
            trace: st.trace,
            switches: st.switches,
            yields: st.yields,
        }
    }
}
