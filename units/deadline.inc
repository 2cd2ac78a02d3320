/*@fn file=ipmb/src/util/mod.rs item=deadline
sig: pub fn deadline(start: Instant, timeout: Duration) -> (r: Instant)
spec:
    // the clock is decades away from its end
    requires start.ns() + far() <= max_instant(),
    ensures r == deadline_of(start, timeout),
pre: proof { assert(60int * 60 * 24 * 365 * 30 == 946080000) by (compute); }
@*/
