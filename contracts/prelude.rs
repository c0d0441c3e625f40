// Prelude of the generated verification file: iterators, strings, formatting.
// What is `external_body` or an axiom here is trusted and listed in the evidence.

pub broadcast group group_seq {
    lemma_nl_add,
    lemma_nl_push,
    lemma_nl_empty,
    lemma_done_all,
    lemma_push_drop_last,
}

/// number of line breaks
#[verifier::opaque]
pub open spec fn nl(s: Seq<char>) -> nat
    decreases s.len(),
{
    if s.len() == 0 {
        0
    } else {
        nl(s.drop_last()) + if s.last() == '\n' { 1nat } else { 0nat }
    }
}

pub broadcast proof fn lemma_nl_empty(s: Seq<char>)
    requires s.len() == 0,
    ensures #[trigger] nl(s) == 0,
{
    reveal(nl);
}

pub broadcast proof fn lemma_nl_push(s: Seq<char>, c: char)
    ensures #[trigger] nl(s.push(c)) == nl(s) + if c == '\n' { 1nat } else { 0nat },
{
    reveal(nl);
    assert(s.push(c).drop_last() =~= s);
}

pub broadcast proof fn lemma_nl_add(a: Seq<char>, b: Seq<char>)
    ensures #[trigger] nl(a + b) == nl(a) + nl(b),
    decreases b.len(),
{
    reveal(nl);
    if b.len() == 0 {
        assert(a + b =~= a);
    } else {
        assert((a + b).drop_last() =~= a + b.drop_last());
        lemma_nl_add(a, b.drop_last());
    }
}

pub proof fn lemma_nl_len(s: Seq<char>)
    ensures 0 <= nl(s) <= s.len(),
    decreases s.len(),
{
    reveal(nl);
    if s.len() > 0 {
        lemma_nl_len(s.drop_last());
    }
}

pub broadcast proof fn lemma_done_all<T>(a: Seq<T>, b: Seq<T>)
    requires b.len() == 0,
    ensures #[trigger] (a + b) == a,
{
    assert(a + b =~= a);
}

pub broadcast proof fn lemma_push_drop_last<T>(a: Seq<T>, c: T)
    ensures #[trigger] a.push(c).drop_last() == a,
{
    assert(a.push(c).drop_last() =~= a);
}

// ---------------------------------------------------------------- iteration

/// by value over a vector
pub struct VOwned<T> {
    pub v: Vec<T>,
    pub gdone: Ghost<Seq<T>>,
}

impl<T> VOwned<T> {
    pub open spec fn wf(&self) -> bool {
        true
    }

    pub open spec fn done(&self) -> Seq<T> {
        self.gdone@
    }

    pub open spec fn rest(&self) -> Seq<T> {
        self.v@
    }

    pub open spec fn all(&self) -> Seq<T> {
        self.done() + self.rest()
    }

    pub fn more(&self) -> (r: bool)
        ensures
            r == (self.rest().len() > 0),
            !r ==> self.done() == self.all(),
    {
        proof {
            assert(self.rest().len() == 0 ==> self.done() =~= self.all());
        }
        self.v.len() > 0
    }

    pub fn v_next(&mut self) -> (r: T)
        requires old(self).rest().len() > 0,
        ensures
            r == old(self).rest()[0],
            final(self).rest() == old(self).rest().drop_first(),
            final(self).done() == old(self).done().push(r),
            final(self).all() == old(self).all(),
            final(self).rest().len() < old(self).rest().len(),
            old(self).done().len() < old(self).all().len(),
            old(self).all()[old(self).done().len() as int] == r,
            decreases_to!(old(self).all() => r),
    {
        let ghost o = *self;
        let r = self.v.remove(0);
        proof {
            assert(o.all()[o.done().len() as int] == r);
        }
        proof {
            assert(self.v@ =~= o.v@.drop_first());
            self.gdone@ = self.gdone@.push(r);
            assert(self.gdone@ + self.v@ =~= o.gdone@ + o.v@);
        }
        r
    }
}

impl<T> VOwned<T> {
    /// `skip(n)` directly after the source
    pub fn v_skip(&mut self, n: usize)
        requires old(self).done().len() == 0,
        ensures
            final(self).done() == Seq::<T>::empty(),
            final(self).rest() == (if n <= old(self).rest().len() { old(self).rest().skip(n as int) } else { Seq::empty() }),
            final(self).all() == final(self).rest(),
    {
        let ghost o = *self;
        let mut i: usize = 0;
        while i < n && self.v.len() > 0
            invariant
                i <= n,
                i <= o.v@.len(),
                self.v@ == o.v@.skip(i as int),
            decreases n - i,
        {
            let _ = self.v.remove(0);
            i = i + 1;
            proof {
                assert(self.v@ =~= o.v@.skip(i as int));
            }
        }
        proof {
            self.gdone@ = Seq::empty();
            assert(self.all() =~= self.rest());
            if n > o.rest().len() {
                assert(self.rest() =~= Seq::empty());
            }
        }
    }
}

/// by reference over a vector or slice
pub struct VRef<'a, T> {
    pub v: &'a [T],
    pub pos: usize,
}

impl<'a, T> VRef<'a, T> {
    pub open spec fn wf(&self) -> bool {
        self.pos <= self.v@.len()
    }

    pub open spec fn done(&self) -> Seq<T> {
        self.v@.take(self.pos as int)
    }

    pub open spec fn rest(&self) -> Seq<T> {
        self.v@.skip(self.pos as int)
    }

    pub open spec fn all(&self) -> Seq<T> {
        self.done() + self.rest()
    }

    pub fn more(&self) -> (r: bool)
        requires self.wf(),
        ensures
            r == (self.rest().len() > 0),
            !r ==> self.done() == self.all(),
    {
        proof {
            assert(self.rest().len() == 0 ==> self.done() =~= self.all());
        }
        self.pos < self.v.len()
    }

    pub fn v_next(&mut self) -> (r: &'a T)
        requires old(self).wf(), old(self).rest().len() > 0,
        ensures
            final(self).wf(),
            *r == old(self).rest()[0],
            decreases_to!(old(self).all() => *r),
            final(self).rest() == old(self).rest().drop_first(),
            final(self).done() == old(self).done().push(*r),
            final(self).all() == old(self).all(),
            final(self).rest().len() < old(self).rest().len(),
            old(self).done().len() < old(self).all().len(),
            old(self).all()[old(self).done().len() as int] == *r,
    {
        let ghost o = *self;
        let _n = self.v.len();
        let r = &self.v[self.pos];
        self.pos = self.pos + 1;
        proof {
            assert(self.rest() =~= o.rest().drop_first());
            assert(self.done() =~= o.done().push(*r));
            assert(o.all()[o.pos as int] == *r);
            assert(self.all() =~= o.all());
        }
        r
    }
}

/// over the characters of a string
pub struct VChars {
    pub v: Vec<char>,
    pub pos: usize,
}

impl VChars {
    pub open spec fn wf(&self) -> bool {
        self.pos <= self.v@.len()
    }

    pub open spec fn done(&self) -> Seq<char> {
        self.v@.take(self.pos as int)
    }

    pub open spec fn rest(&self) -> Seq<char> {
        self.v@.skip(self.pos as int)
    }

    pub open spec fn all(&self) -> Seq<char> {
        self.done() + self.rest()
    }

    pub fn more(&self) -> (r: bool)
        requires self.wf(),
        ensures
            r == (self.rest().len() > 0),
            !r ==> self.done() == self.all(),
    {
        proof {
            assert(self.rest().len() == 0 ==> self.done() =~= self.all());
        }
        self.pos < self.v.len()
    }

    pub fn v_next(&mut self) -> (r: char)
        requires old(self).wf(), old(self).rest().len() > 0,
        ensures
            final(self).wf(),
            r == old(self).rest()[0],
            final(self).rest() == old(self).rest().drop_first(),
            final(self).done() == old(self).done().push(r),
            final(self).all() == old(self).all(),
            final(self).rest().len() < old(self).rest().len(),
            old(self).done().len() < old(self).all().len(),
            old(self).all()[old(self).done().len() as int] == r,
    {
        let ghost o = *self;
        let _n = self.v.len();
        let r = self.v[self.pos];
        self.pos = self.pos + 1;
        proof {
            assert(self.rest() =~= o.rest().drop_first());
            assert(self.done() =~= o.done().push(r));
            assert(self.all() =~= o.all());
        }
        r
    }
}

/// `x.chars()`
pub fn v_chars(s: &str) -> (r: VChars)
    ensures
        r.wf(),
        r.all() == s@,
        r.done() == Seq::<char>::empty(),
        r.rest() == s@,
{
    let mut v: Vec<char> = Vec::new();
    for c in it: s.chars()
        invariant
            v@ == it.seq().take(it.index() as int),
            it.seq() == s@,
    {
        v.push(c);
        proof {
            assert(v@ =~= it.seq().take(it.index() + 1));
        }
    }
    let r = VChars { v, pos: 0 };
    proof {
        assert(r.v@ =~= s@);
        assert(r.done() =~= Seq::<char>::empty());
        assert(r.rest() =~= s@);
        assert(r.all() =~= s@);
    }
    r
}

/// `x.iter()`
pub trait VIter<T> {
    spec fn v_elems(&self) -> Seq<T>;

    fn v_iter<'a>(&'a self) -> (r: VRef<'a, T>)
        ensures
            r.wf(),
            r.all() == self.v_elems(),
            r.done() == Seq::<T>::empty(),
            r.rest() == self.v_elems();
}

impl<T> VIter<T> for Vec<T> {
    open spec fn v_elems(&self) -> Seq<T> {
        self@
    }

    fn v_iter<'a>(&'a self) -> (r: VRef<'a, T>) {
        let r = VRef { v: self.as_slice(), pos: 0 };
        proof {
            assert(r.done() =~= Seq::<T>::empty());
            assert(r.rest() =~= self@);
            assert(r.all() =~= self@);
        }
        r
    }
}

/// `x.into_iter()` and `for .. in x`
pub trait VInto: Sized {
    type It;

    spec fn v_into(self, it: Self::It) -> bool;

    fn v_into_iter(self) -> (r: Self::It)
        ensures self.v_into(r);
}

impl<T> VInto for Vec<T> {
    type It = VOwned<T>;

    open spec fn v_into(self, it: VOwned<T>) -> bool {
        &&& it.wf()
        &&& it.all() == self@
        &&& it.done() == Seq::<T>::empty()
        &&& it.rest() == self@
    }

    fn v_into_iter(self) -> (r: VOwned<T>) {
        let r = VOwned { v: self, gdone: Ghost(Seq::empty()) };
        proof {
            assert(r.all() =~= self@);
        }
        r
    }
}

impl<'a, T> VInto for &'a Vec<T> {
    type It = VRef<'a, T>;

    open spec fn v_into(self, it: VRef<'a, T>) -> bool {
        &&& it.wf()
        &&& it.all() == self@
        &&& it.done() == Seq::<T>::empty()
        &&& it.rest() == self@
    }

    fn v_into_iter(self) -> (r: VRef<'a, T>) {
        self.v_iter()
    }
}

impl VInto for VChars {
    type It = VChars;

    open spec fn v_into(self, it: VChars) -> bool {
        it == self
    }

    fn v_into_iter(self) -> (r: VChars) {
        self
    }
}

impl<'a, T> VInto for VRef<'a, T> {
    type It = VRef<'a, T>;

    open spec fn v_into(self, it: VRef<'a, T>) -> bool {
        it == self
    }

    fn v_into_iter(self) -> (r: VRef<'a, T>) {
        self
    }
}

// ------------------------------------------------------------------- errors

/// the kinds of errors, names as text
pub ghost enum EKind {
    UnexpectedClosing(crate::ast1::ScopeVariant),
    UnclosedArgument(crate::ast1::ScopeVariant),
    UnclosedScope(crate::ast1::ScopeVariant),
    NoEnvironmentLabel,
    UnexpectedEnd(Seq<char>),
    UnclosedEnvironment(Seq<char>),
    TooManyArgsEnd,
    TooManyArgsDocumentClass,
    DoubleDocumentClass,
    UnexpectedMathsEnd,
    UnclosedMaths,
    Internal(crate::InternalError),
}

pub open spec fn ekind(e: crate::ErrorType) -> EKind {
    match e {
        crate::ErrorType::UnexpectedClosing(v) => EKind::UnexpectedClosing(v),
        crate::ErrorType::UnclosedArgument(v) => EKind::UnclosedArgument(v),
        crate::ErrorType::UnclosedScope(v) => EKind::UnclosedScope(v),
        crate::ErrorType::NoEnvironmentLabel => EKind::NoEnvironmentLabel,
        crate::ErrorType::UnexpectedEnd(s) => EKind::UnexpectedEnd(s@),
        crate::ErrorType::UnclosedEnvironment(s) => EKind::UnclosedEnvironment(s@),
        crate::ErrorType::TooManyArgsEnd => EKind::TooManyArgsEnd,
        crate::ErrorType::TooManyArgsDocumentClass => EKind::TooManyArgsDocumentClass,
        crate::ErrorType::DoubleDocumentClass => EKind::DoubleDocumentClass,
        crate::ErrorType::UnexpectedMathsEnd => EKind::UnexpectedMathsEnd,
        crate::ErrorType::UnclosedMaths => EKind::UnclosedMaths,
        crate::ErrorType::Internal(x) => EKind::Internal(x),
    }
}

// ------------------------------------------------------------------ strings

pub open spec fn alpha(c: char) -> bool {
    ('a' <= c && c <= 'z') || ('A' <= c && c <= 'Z')
}

pub open spec fn ws(c: char) -> bool {
    vstd::std_specs::char::is_white_space(c)
}

pub assume_specification [char::is_ascii_alphabetic] (c: &char) -> (r: bool)
    ensures r == alpha(*c);

/// a string or string slice
pub trait VStr {
    spec fn v_text(&self) -> Seq<char>;

    fn v_str(&self) -> (r: &str)
        ensures r@ == self.v_text();
}

impl VStr for str {
    open spec fn v_text(&self) -> Seq<char> {
        self@
    }

    fn v_str(&self) -> (r: &str) {
        self
    }
}

impl VStr for String {
    open spec fn v_text(&self) -> Seq<char> {
        self@
    }

    fn v_str(&self) -> (r: &str) {
        self.as_str()
    }
}

/// `x.to_string()` of a string, slice or character
pub trait VShow {
    spec fn v_shown(&self) -> Seq<char>;

    fn v_to_string(&self) -> (r: String)
        ensures r@ == self.v_shown();
}

impl VShow for str {
    open spec fn v_shown(&self) -> Seq<char> {
        self@
    }

    fn v_to_string(&self) -> (r: String) {
        self.to_string()
    }
}

impl VShow for String {
    open spec fn v_shown(&self) -> Seq<char> {
        self@
    }

    fn v_to_string(&self) -> (r: String) {
        self.clone()
    }
}

impl VShow for char {
    open spec fn v_shown(&self) -> Seq<char> {
        seq![*self]
    }

    fn v_to_string(&self) -> (r: String) {
        let mut s = String::new();
        s.push(*self);
        proof {
            assert(s@ =~= seq![*self]);
        }
        s
    }
}

/// `a == "literal"`
pub fn v_str_eq(a: &str, b: &str) -> (r: bool)
    ensures r == (a@ == b@),
{
    a == b
}

/// `s.len() == 1` of a string: a single character that takes one byte
#[verifier::external_body]
pub fn v_byte_len_is_one(s: &str) -> (r: bool)
    ensures r == (s@.len() == 1 && (s@[0] as u32) < 128),
{
    s.len() == 1
}

pub trait VTake: Sized {
    spec fn v_taken(o: Self, f: Self, r: Self) -> bool;

    fn v_take(x: &mut Self) -> (r: Self)
        ensures Self::v_taken(*old(x), *final(x), r);
}

impl VTake for String {
    open spec fn v_taken(o: String, f: String, r: String) -> bool {
        r@ == o@ && f@ == Seq::<char>::empty()
    }

    fn v_take(x: &mut String) -> (r: String) {
        let mut r = String::new();
        core::mem::swap(&mut r, x);
        r
    }
}

impl<T> VTake for Vec<T> {
    open spec fn v_taken(o: Vec<T>, f: Vec<T>, r: Vec<T>) -> bool {
        r@ == o@ && f@ == Seq::<T>::empty()
    }

    fn v_take(x: &mut Vec<T>) -> (r: Vec<T>) {
        let mut r = Vec::new();
        core::mem::swap(&mut r, x);
        r
    }
}

/// the pieces between the occurrences of `c`
pub open spec fn split_at(s: Seq<char>, c: char) -> Seq<Seq<char>>
    decreases s.len(),
{
    if s.len() == 0 {
        seq![Seq::empty()]
    } else {
        let p = split_at(s.drop_last(), c);
        if s.last() == c {
            p.push(Seq::empty())
        } else {
            p.drop_last().push(p.last().push(s.last()))
        }
    }
}

pub open spec fn texts(v: Seq<String>) -> Seq<Seq<char>> {
    v.map_values(|s: String| s@)
}

/// `s.split(c)`
pub fn v_split(s: &str, c: char) -> (r: Vec<String>)
    ensures texts(r@) == split_at(s@, c),
{
    let mut r: Vec<String> = Vec::new();
    let mut cur = String::new();
    let mut it = v_chars(s);
    proof {
        assert(texts(r@).push(cur@) =~= split_at(Seq::empty(), c));
    }
    while it.more()
        invariant
            it.wf(),
            it.all() == s@,
            texts(r@).push(cur@) == split_at(it.done(), c),
        decreases it.rest().len(),
    {
        let ghost d = it.done();
        let ghost p = texts(r@).push(cur@);
        let x = it.v_next();
        proof {
            assert(it.done().drop_last() =~= d);
            assert(p.drop_last() =~= texts(r@));
            assert(p.last() == cur@);
        }
        if x == c {
            let ghost old_r = r@;
            r.push(cur);
            cur = String::new();
            proof {
                assert(texts(r@) =~= p);
                assert(cur@ =~= Seq::<char>::empty());
            }
        } else {
            cur.push(x);
        }
    }
    let ghost p = texts(r@).push(cur@);
    r.push(cur);
    proof {
        assert(texts(r@) =~= p);
    }
    r
}

/// `s.split_once(c)`
pub fn v_split_once(s: &str, c: char) -> (r: Option<(String, String)>)
    ensures
        match r {
            None => !s@.contains(c),
            Some((a, b)) => !a@.contains(c) && s@ == a@ + seq![c] + b@,
        },
{
    let mut a = String::new();
    let mut b = String::new();
    let mut found = false;
    let mut it = v_chars(s);
    proof {
        assert(it.done() =~= a@);
    }
    while it.more()
        invariant
            it.wf(),
            it.all() == s@,
            !a@.contains(c),
            found ==> it.done() == a@ + seq![c] + b@,
            !found ==> it.done() == a@ && b@.len() == 0,
        decreases it.rest().len(),
    {
        let ghost a0 = a@;
        let ghost b0 = b@;
        let x = it.v_next();
        if found {
            b.push(x);
            proof {
                assert(it.done() =~= a@ + seq![c] + b@);
            }
        } else if x == c {
            found = true;
            proof {
                assert(it.done() =~= a@ + seq![c] + b@);
            }
        } else {
            a.push(x);
            proof {
                assert forall|i: int| 0 <= i < a@.len() implies a@[i] != c by {
                    if i < a0.len() {
                        assert(a@[i] == a0[i]);
                        assert(a0.contains(a0[i]));
                    }
                }
            }
        }
    }
    if found {
        Some((a, b))
    } else {
        None
    }
}

pub open spec fn rep(s: Seq<char>, n: nat) -> Seq<char>
    decreases n,
{
    if n == 0 {
        Seq::empty()
    } else {
        rep(s, (n - 1) as nat) + s
    }
}

/// `s.repeat(n)`
pub fn v_repeat(s: &str, n: usize) -> (r: String)
    ensures r@ == rep(s@, n as nat),
{
    let mut r = String::new();
    let mut i: usize = 0;
    proof {
        assert(r@ =~= Seq::<char>::empty());
    }
    while i < n
        invariant
            i <= n,
            r@ == rep(s@, i as nat),
        decreases n - i,
    {
        r.push_str(s);
        i = i + 1;
    }
    r
}

/// what derived `==` of values of the type compares
pub trait VSame {
    spec fn v_same(&self, o: &Self) -> bool;

    fn v_eq_same(&self, o: &Self) -> (r: bool)
        ensures r == self.v_same(o);
}

/// `==` of two optional references
pub fn v_opt_eq<T: VSame>(a: Option<&T>, b: Option<&T>) -> (r: bool)
    ensures
        r == match (a, b) {
            (Some(x), Some(y)) => x.v_same(y),
            (None, None) => true,
            _ => false,
        },
{
    match (a, b) {
        (Some(x), Some(y)) => x.v_eq_same(y),
        (None, None) => true,
        _ => false,
    }
}

/// `into()` of a bracket kind: the source type has two targets
pub trait VConv<T>: Sized {
    spec fn conv_ok(self, r: T) -> bool;

    fn v_conv(self) -> (r: T)
        ensures self.conv_ok(r);
}

/// which arm a function verified one arm at a time goes on with: any
#[verifier::external_body]
pub fn v_case() -> (r: usize)
{
    0
}

/// what an arm that is closed in this copy of the function may have changed: to any value
#[verifier::external_body]
pub fn v_havoc<T>(x: &mut T)
{
}

/// a branch the code declares unreachable
#[verifier::external_body]
pub fn v_unreachable<T>() -> (r: T)
    requires false,
{
    unreachable!()
}

/// `clone()`; that of a type which derives `Clone` is written out by the extraction
pub trait VClone: Sized {
    fn v_clone(&self) -> (r: Self)
        ensures r == *self;
}

impl VClone for String {
    fn v_clone(&self) -> (r: String) {
        self.clone()
    }
}

impl VClone for u32 {
    fn v_clone(&self) -> (r: u32) {
        *self
    }
}

impl VClone for usize {
    fn v_clone(&self) -> (r: usize) {
        *self
    }
}

impl VClone for bool {
    fn v_clone(&self) -> (r: bool) {
        *self
    }
}

impl VClone for char {
    fn v_clone(&self) -> (r: char) {
        *self
    }
}

impl<T: VClone> VClone for Option<T> {
    fn v_clone(&self) -> (r: Option<T>) {
        match self {
            Some(x) => Some(x.v_clone()),
            None => None,
        }
    }
}

/// a vector of clones is an equal vector (trusted: Verus knows a vector's elements, not that they are all there is
/// to it; that the clone of each element is equal is proved with the element's type)
impl<T> VClone for Vec<T> {
    #[verifier::external_body]
    fn v_clone(&self) -> (r: Vec<T>) {
        unimplemented!()
    }
}

impl<A: VClone, B: VClone> VClone for (A, B) {
    fn v_clone(&self) -> (r: (A, B)) {
        (self.0.v_clone(), self.1.v_clone())
    }
}

impl<A: VClone, B: VClone, C: VClone> VClone for (A, B, C) {
    fn v_clone(&self) -> (r: (A, B, C)) {
        (self.0.v_clone(), self.1.v_clone(), self.2.v_clone())
    }
}

impl<A: VClone, B: VClone, C: VClone, D: VClone> VClone for (A, B, C, D) {
    fn v_clone(&self) -> (r: (A, B, C, D)) {
        (self.0.v_clone(), self.1.v_clone(), self.2.v_clone(), self.3.v_clone())
    }
}

// --------------------------------------------------------------- formatting

pub struct FmtError {}

pub type FmtResult = Result<(), FmtError>;

/// the output side of a formatter; writing to it does not fail
pub struct Fmt {
    pub out: String,
}

impl Fmt {
    pub open spec fn view(&self) -> Seq<char> {
        self.out@
    }

    pub fn write_str(&mut self, s: &str) -> (r: FmtResult)
        ensures
            r is Ok,
            final(self)@ == old(self)@ + s@,
    {
        self.out.push_str(s);
        Ok(())
    }
}
