use vstd::prelude::*;
verus! {
//@include lib/prelude.vrs
#[verifier::external_body] pub struct OsStr { x: () }
#[verifier::external_body] pub struct PrefixComponent<'a> { x: &'a () }
pub enum Component<'a> { Prefix(PrefixComponent<'a>), RootDir, CurDir, ParentDir, Normal(&'a OsStr) }
#[verifier::external_body] pub struct Path { x: () }
impl Path {
    pub uninterp spec fn parts<'a>(&'a self) -> Seq<Component<'a>>;
    /// std: Path::components
    #[verifier::external_body] pub fn components<'a>(&'a self) -> (r: VIter<Component<'a>>) ensures r@ == self.parts() { unimplemented!() }
}
pub trait AsPath { spec fn path(&self) -> &Path; fn as_ref(&self) -> (r: &Path) ensures r == self.path(); }
pub open spec fn bad(c: Component) -> bool { c is RootDir || c is Prefix || c is ParentDir }

//@fn src/file.rs - - check_path
//@sig pub fn check_path<'a, P: ?Sized + AsPath>(path: &'a P) -> (r: Result<(), Component<'a>>)
//@spec
    ensures match r {
        Ok(_) => forall|i: int| 0 <= i < path.path().parts().len() ==> !bad(#[trigger] path.path().parts()[i]),
        // the first one that's forbidden
        Err(c) => exists|i: int| 0 <= i < path.path().parts().len() && #[trigger] path.path().parts()[i] == c && bad(c)
            && forall|j: int| 0 <= j < i ==> !bad(#[trigger] path.path().parts()[j]),
    },
//@at loop 0 init
    let ghost all = path.path().parts();
    let ghost mut k: int = 0;
//@at loop 0 spec
    invariant all == path.path().parts(), 0 <= k <= all.len(), vx_it0@ == all.skip(k), forall|j: int| 0 <= j < k ==> !bad(#[trigger] all[j]),
    ensures forall|j: int| 0 <= j < all.len() ==> !bad(#[trigger] all[j]),
    decreases all.len() - k,
//@at loop 0 start
    proof { assert(all[k] == component); k = k + 1; }
//@end
// ---------------------------------------------------------------- what it's for
/// Where a sequence of components leads, symbolic links aside (names from the root; None: outside of the tree altogether).
pub open spec fn resolve<'a>(at: Seq<Component<'a>>, cs: Seq<Component<'a>>) -> Seq<Component<'a>> decreases cs.len() {
    if cs.len() == 0 { at } else {
        let c = cs[0];
        resolve(match c {
            Component::Normal(_) => at.push(c),
            Component::CurDir => at,
            Component::ParentDir => if at.len() > 0 { at.drop_last() } else { at },
            _ => Seq::empty(),
        }, cs.skip(1))
    }
}
/// P17: an accepted path, joined to a directory, names something inside of that directory.
proof fn theorem_inside(dir: Seq<Component>, cs: Seq<Component>)
    requires forall|i: int| 0 <= i < cs.len() ==> !bad(#[trigger] cs[i]),
    ensures dir.is_prefix_of(resolve(dir, cs)),
{ lemma_inside(dir, dir, cs); }
proof fn lemma_inside(dir: Seq<Component>, at: Seq<Component>, cs: Seq<Component>)
    requires forall|i: int| 0 <= i < cs.len() ==> !bad(#[trigger] cs[i]), dir.is_prefix_of(at),
    ensures dir.is_prefix_of(resolve(at, cs)),
    decreases cs.len(),
{
    if cs.len() > 0 {
        assert(!bad(cs[0]));
        assert forall|i: int| 0 <= i < cs.skip(1).len() implies !bad(#[trigger] cs.skip(1)[i]) by { assert(cs.skip(1)[i] == cs[i + 1]); }
        lemma_inside(dir, match cs[0] { Component::Normal(_) => at.push(cs[0]), _ => at }, cs.skip(1));
    }
}
}
fn main() {}
