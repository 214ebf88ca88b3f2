//! The simulator runtime: every source of nondeterminism the checked code meets goes through here.
//!
//! * `sched`  - seeded cooperative scheduler: real OS threads, exactly one runs at a time
//! * `clock`  - virtual monotonic and wall clocks
//! * `disk`   - fault injecting file layer (open/read/write/fsync/close)
//! * `entropy`- `getrandom` and hash-map keys
//! * `hooks`  - the libc symbols interposed in this binary
pub mod clock;
pub mod disk;
pub mod entropy;
pub mod hooks;
pub mod raw;
pub mod rng;
pub mod sched;
