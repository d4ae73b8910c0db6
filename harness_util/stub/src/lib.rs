//! Stand-in for the database crate: a table of blocks by content identifier, with injected faults.
use libipld::{codec::References, store::StoreParams, Block, Cid, Ipld};
use std::marker::PhantomData;
pub struct TempPin;
pub struct BlockStore<S> { blocks: Vec<(Cid, Vec<u8>)>, pub ops: u64, pub fail_at: Option<u64>, s: PhantomData<S> }
impl<S: StoreParams> BlockStore<S> where Ipld: References<S::Codecs> {
    pub fn stub(fail_at: Option<u64>) -> Self { BlockStore { blocks: vec![], ops: 0, fail_at, s: PhantomData } }
    fn op(&mut self) -> anyhow::Result<()> { let n = self.ops; self.ops += 1; if self.fail_at == Some(n) { anyhow::bail!("database error") } Ok(()) }
    pub fn get_block(&mut self, cid: &Cid) -> anyhow::Result<Option<Vec<u8>>> { self.op()?; Ok(self.blocks.iter().find(|x| x.0 == *cid).map(|x| x.1.clone())) }
    pub fn has_block(&mut self, cid: &Cid) -> anyhow::Result<bool> { self.op()?; Ok(self.blocks.iter().any(|x| x.0 == *cid)) }
    pub fn put_block(&mut self, block: Block<S>, _: Option<&TempPin>) -> anyhow::Result<()> { self.op()?; let (c, d) = block.into_inner(); if !self.blocks.iter().any(|x| x.0 == c) { self.blocks.push((c, d)); } Ok(()) }
}
