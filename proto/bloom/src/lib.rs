//! Stands in for the `bloom-filters` crate, which is not installed: a filter that never takes
//! one item for another and forgets nothing.
use std::collections::hash_map::DefaultHasher;
use std::collections::HashSet;
use std::hash::{Hash, Hasher};
use std::marker::PhantomData;

pub trait BloomFilter {
    fn insert<T: Hash>(&mut self, item: &T);
    fn contains<T: Hash>(&self, item: &T) -> bool;
    fn reset(&mut self);
}

pub struct DefaultBuildHashKernels<B>(PhantomData<B>);

impl<B> DefaultBuildHashKernels<B> {
    pub fn new(_seed: usize, _builder: B) -> Self {
        DefaultBuildHashKernels(PhantomData)
    }
}

pub struct StableBloomFilter<K>(HashSet<u64>, PhantomData<K>);

impl<K> StableBloomFilter<K> {
    pub fn new(_buckets: usize, _bits: u8, _rate: f64, _kernels: K) -> Self {
        StableBloomFilter(Default::default(), PhantomData)
    }
}

fn key<T: Hash>(item: &T) -> u64 {
    let mut h = DefaultHasher::new();
    item.hash(&mut h);
    h.finish()
}

impl<K> BloomFilter for StableBloomFilter<K> {
    fn insert<T: Hash>(&mut self, item: &T) {
        self.0.insert(key(item));
    }
    fn contains<T: Hash>(&self, item: &T) -> bool {
        self.0.contains(&key(item))
    }
    fn reset(&mut self) {
        self.0.clear()
    }
}
