// In-memory file system used by both the symbolic build and the native replay build.
#pragma once
#include <cstddef>
#include <cstdint>
#include <vector>
struct VfsFile
{
   char name[32];
   bool exists;
   std::vector<uint8_t> data;
};
VfsFile *vfs_find( const char *name );   // null when the file does not exist
VfsFile *vfs_create( const char *name ); // empty file
int vfs_open_count();                    // descriptors currently open
// Faults: the operation with number vfs_fail_at (counted from the last vfs_arm) misbehaves.
//   kind 0: fails with an error and does nothing, 1: transfers only vfs_short bytes
struct VfsCtl
{
   int ops = 0;          // operations performed since armed
   int fail_at = -1;     // failing operation
   int fail_kind = 0;
   int short_len = 0;
   bool any_len = false; // short_len and torn are symbolic: merge bytes without branching
   bool fired = false;
   int fired_op = 0;     // which call was hit: 'o' open, 'r' read, 'w' write, 's' seek, 'c' close
   bool sticky = false;  // the failure persists
   int crash_at = -1;    // operations from this one on do not reach the disk
   int torn = 0;         // bytes of the crashing write that still reach the disk
   bool crashed = false;
   int writes = 0;
};
extern VfsCtl vfs;
