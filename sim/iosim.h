#pragma once
#include <cstdint>

// Faults on the files of one directory tree, at the C library's file calls. Compiled without sanitizers.
namespace iosim {
enum Op { kOpen, kRead, kWrite, kTruncate, kClose, kStat, kSync, kOps };
enum Kind {
    kNone,
    kError,      // the call fails with err; nothing happens
    kShort,      // a part is transferred (legal: the caller has to go on)
    kPartial,    // a part is transferred, the calls after it fail with err (a read, by salt: or find nothing)
    kEof,        // a read: the file appears to end here
    kFlip,       // a read: one bit of the data comes back wrong
    kCrash,      // the process dies at this call (a write: after a part of it)
};
struct Fault {
    long at = -1;        // which call (counted over all watched calls, or over those of `op` only)
    int op = -1;         // -1: any
    int kind = kNone;
    int err = 5;
    long last = 1;       // over how many such calls (a very large number: for ever)
    uint64_t salt = 0;   // which byte, how much
    // filled in
    long seen = 0, fired = 0;
};
void Watch(const char* dir);   // calls on paths and descriptors below dir are seen; counters are zeroed
void Unwatch();
void SetFaults(Fault* f, int n);  // kept by reference
void SetCapacity(int64_t bytes);  // the disk holds this many more bytes (<0: unlimited)
bool CapacityHit();
long Count(int op);            // calls seen since Watch (op < 0: all)
int64_t BytesWritten();
uint64_t Hash();               // of the sequence of calls
int OpenCount();               // watched descriptors still open
void SetErrFault(int mode);    // standard error: 0 works, 1 fails
}  // namespace iosim
