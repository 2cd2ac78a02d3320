pub struct $H$(pub Raw);
impl Owner for $H$ { open spec fn at_end(self, w: World) -> World { World { forgotten: w.forgotten.insert(self.0.at()), ..w } } }
impl $H$ {
    /// the handle refers to a value of its type
    pub open spec fn valid(&self, w: World) -> bool { w.live.contains_key(self.0.at()) && w.live[self.0.at()].0 == <$T$ as Stored>::ty() }
/*@fn file=ipmb-ffi/src/lib.rs item=$H$~as~Drop::drop
sig: pub fn drop(&mut self, Tracked(tr): Tracked<&mut Sys>)
spec: requires old(self).valid(old(tr)@)
    ensures final(tr)@ == (World { live: old(tr)@.live.remove(old(self).0.at()), ..old(tr)@ })
ghost Box::from_raw: Tracked(tr)
ghost Box::into_raw: Tracked(tr)
ghost Box::leak: Tracked(tr)
ghost mem::forget: Tracked(tr)
ghost ptr::read: Tracked(tr)
ghost ptr::drop_in_place: Tracked(tr)
ghost Box::taken: Tracked(tr)
subst opt: * Box :: from_raw ==> Box :: taken
@*/
/*@fn file=ipmb-ffi/src/lib.rs item=$H$~as~Deref::deref
sig: pub fn deref(&self, Tracked(tr): Tracked<&mut Sys>) -> (r: &$T$)
spec: requires self.valid(old(tr)@)
    ensures slot(*r) == old(tr)@.live[self.0.at()], final(tr)@ == old(tr)@
ghost __deref: Tracked(tr)
ghost __deref_mut: Tracked(tr)
@*/
/*@fn file=ipmb-ffi/src/lib.rs item=$H$~as~DerefMut::deref_mut
sig: pub fn deref_mut(&mut self, Tracked(tr): Tracked<&mut Sys>) -> (r: &mut $T$)
spec: requires old(self).valid(old(tr)@)
    ensures slot(*r) == old(tr)@.live[old(self).0.at()], final(tr)@ == old(tr)@, final(self).0 == old(self).0
ghost __deref: Tracked(tr)
ghost __deref_mut: Tracked(tr)
@*/
/*@fn file=ipmb-ffi/src/lib.rs item=$H$~as~From<$F$>::from
sig: pub fn from_value(v: $T$, Tracked(tr): Tracked<&mut Sys>) -> (r: $H$)
spec: ensures !old(tr)@.live.contains_key(r.0.at()), r.valid(final(tr)@),
        final(tr)@ == (World { live: old(tr)@.live.insert(r.0.at(), slot(v)), ..old(tr)@ })
ghost Box::from_raw: Tracked(tr)
ghost Box::into_raw: Tracked(tr)
ghost Box::leak: Tracked(tr)
ghost mem::forget: Tracked(tr)
@*/
/*@fn file=ipmb-ffi/src/lib.rs item=$V$~as~From<$H$>::from
sig: pub fn into_value(v: $H$, Tracked(tr): Tracked<&mut Sys>) -> (r: $T$)
spec: requires v.valid(old(tr)@)
    ensures slot(r) == old(tr)@.live[v.0.at()],
        final(tr)@ == (World { live: old(tr)@.live.remove(v.0.at()), forgotten: old(tr)@.forgotten.insert(v.0.at()), ..old(tr)@ })
ghost Box::from_raw: Tracked(tr)
ghost Box::into_raw: Tracked(tr)
ghost Box::leak: Tracked(tr)
ghost mem::forget: Tracked(tr)
ghost ptr::read: Tracked(tr)
ghost Box::taken: Tracked(tr)
subst opt: * Box :: from_raw ==> Box :: taken
@*/
}
