//! Verification harness: compiled to LLVM IR for the symbolic executor.
mod entries;
