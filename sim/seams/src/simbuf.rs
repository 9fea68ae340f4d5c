//! A receive buffer under the simulator's control: any segmentation, every access counted.

use bytes::Buf;

pub struct SimBuf<'a> {
    data: &'a [u8],
    pos: usize,
    /// Ascending cut positions; a segment ends at each
    cuts: &'a [usize],
    next: usize,
    pub ops: std::cell::Cell<u64>,
    pub op_limit: u64,
}

pub const OP_BUDGET_MSG: &str = "SIM: buffer access budget exhausted";

impl<'a> SimBuf<'a> {
    pub fn new(data: &'a [u8], cuts: &'a [usize], op_limit: u64) -> Self {
        let mut b = SimBuf { data, pos: 0, cuts, next: 0, ops: std::cell::Cell::new(0), op_limit };
        b.skip();
        b
    }
    fn skip(&mut self) {
        while self.next < self.cuts.len() && self.cuts[self.next] <= self.pos {
            self.next += 1;
        }
    }
    fn op(&self) {
        crate::fire(crate::Point::Read);
        self.ops.set(self.ops.get() + 1);
        if self.ops.get() > self.op_limit {
            panic!("{OP_BUDGET_MSG}");
        }
    }
    pub fn consumed(&self) -> usize {
        self.pos
    }
}

impl Buf for SimBuf<'_> {
    fn remaining(&self) -> usize {
        self.op();
        self.data.len() - self.pos
    }
    fn chunk(&self) -> &[u8] {
        self.op();
        let end = self.cuts.get(self.next).copied().unwrap_or(self.data.len()).min(self.data.len());
        &self.data[self.pos..end.max(self.pos)]
    }
    fn advance(&mut self, n: usize) {
        self.op();
        assert!(n <= self.data.len() - self.pos, "advance past the end of the buffer");
        self.pos += n;
        self.skip();
    }
}
