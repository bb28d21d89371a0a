//! S-expressions, independent of carcara's lexer.
use std::fmt;
#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub enum S {
    A(String),
    L(Vec<S>),
}
impl fmt::Display for S {
    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
        match self {
            S::A(s) => f.write_str(s),
            S::L(v) => {
                f.write_str("(")?;
                for (i, x) in v.iter().enumerate() {
                    if i > 0 {
                        f.write_str(" ")?;
                    }
                    write!(f, "{}", x)?;
                }
                f.write_str(")")
            }
        }
    }
}
pub fn parse_all(s: &str) -> Option<Vec<S>> {
    let c: Vec<char> = s.chars().collect();
    let mut st: Vec<Vec<S>> = vec![vec![]];
    let mut i = 0;
    while i < c.len() {
        match c[i] {
            x if x.is_whitespace() => i += 1,
            ';' => {
                while i < c.len() && c[i] != '\n' {
                    i += 1;
                }
            }
            '(' => {
                st.push(vec![]);
                i += 1;
            }
            ')' => {
                let v = st.pop()?;
                st.last_mut()?.push(S::L(v));
                i += 1;
            }
            '"' => {
                let mut j = i + 1;
                loop {
                    if j >= c.len() {
                        return None;
                    }
                    if c[j] == '"' {
                        if j + 1 < c.len() && c[j + 1] == '"' {
                            j += 2;
                            continue;
                        }
                        break;
                    }
                    j += 1;
                }
                st.last_mut()?.push(S::A(c[i..=j].iter().collect()));
                i = j + 1;
            }
            '|' => {
                let mut j = i + 1;
                while j < c.len() && c[j] != '|' {
                    j += 1;
                }
                if j >= c.len() {
                    return None;
                }
                st.last_mut()?.push(S::A(c[i..=j].iter().collect()));
                i = j + 1;
            }
            _ => {
                let mut j = i;
                while j < c.len() && !c[j].is_whitespace() && !"()\";|".contains(c[j]) {
                    j += 1;
                }
                st.last_mut()?.push(S::A(c[i..j].iter().collect()));
                i = j;
            }
        }
    }
    if st.len() != 1 {
        return None;
    }
    st.pop()
}
impl S {
    pub fn a(s: &str) -> S {
        S::A(s.to_string())
    }
    pub fn l(v: Vec<S>) -> S {
        S::L(v)
    }
    pub fn atom(&self) -> Option<&str> {
        match self {
            S::A(s) => Some(s),
            _ => None,
        }
    }
    pub fn list(&self) -> Option<&Vec<S>> {
        match self {
            S::L(s) => Some(s),
            _ => None,
        }
    }
    pub fn list_mut(&mut self) -> Option<&mut Vec<S>> {
        match self {
            S::L(s) => Some(s),
            _ => None,
        }
    }
    pub fn head(&self) -> Option<&str> {
        self.list()?.first()?.atom()
    }
    pub fn count(&self) -> usize {
        match self {
            S::A(_) => 1,
            S::L(v) => 1 + v.iter().map(|x| x.count()).sum::<usize>(),
        }
    }
    pub fn at(&self, n: &mut usize) -> Option<&S> {
        if *n == 0 {
            return Some(self);
        }
        *n -= 1;
        if let S::L(v) = self {
            for x in v {
                if let Some(r) = x.at(n) {
                    return Some(r);
                }
            }
        }
        None
    }
    pub fn at_mut(&mut self, n: &mut usize) -> Option<&mut S> {
        if *n == 0 {
            return Some(self);
        }
        *n -= 1;
        if let S::L(v) = self {
            for x in v {
                if let Some(r) = x.at_mut(n) {
                    return Some(r);
                }
            }
        }
        None
    }
    pub fn nth(&self, n: usize) -> Option<&S> {
        let mut k = n;
        self.at(&mut k)
    }
    pub fn nth_mut(&mut self, n: usize) -> Option<&mut S> {
        let mut k = n;
        self.at_mut(&mut k)
    }
    pub fn replace(&self, from: &S, to: &S) -> S {
        if self == from {
            return to.clone();
        }
        match self {
            S::A(_) => self.clone(),
            S::L(v) => S::L(v.iter().map(|x| x.replace(from, to)).collect()),
        }
    }
    pub fn subterms<'a>(&'a self, out: &mut Vec<&'a S>) {
        out.push(self);
        if let S::L(v) = self {
            for x in v {
                x.subterms(out);
            }
        }
    }
}
