// The contract of one scan, for the retry loop of RawCongee::range.
pub(crate) static mut N: u8 = 0;
pub(crate) static mut SCANNED: Option<usize> = None;
pub(crate) static mut BOUNDS: [[u8; 8]; 2] = [[0; 8]; 2];
pub(crate) static mut BUF: *const u8 = std::ptr::null();
pub(crate) static mut ROOT: *const u8 = std::ptr::null();
macro_rules! oblige {
    ($c:expr, $m:literal) => { if !($c) && kani::any() { assert!(false, $m); } };
}
impl<'a, const K_LEN: usize> RangeScan<'a, K_LEN> {
    pub(crate) fn c_scan(&mut self) -> Result<usize, ArtError> {
        unsafe {
            oblige!(SCANNED.is_none(), "[C04] a finished scan is repeated");
            let (s, e) = (*(self.start as *const _ as *const [u8; 8]), *(self.end as *const _ as *const [u8; 8]));
            oblige!(s == BOUNDS[0] && e == BOUNDS[1], "[C04] a scan is made for another interval");
            oblige!(self.result.as_ptr() as *const u8 == BUF && self.result.len() == 2, "[C04,C05] a scan is given another buffer");
            oblige!(self.root.as_ptr() as *const u8 == ROOT, "[C04] another tree is scanned");
            assert!(s < e, "[C04] an empty interval is scanned");
            N += 1;
            kani::assume(N <= 3);
            // an abandoned scan leaves anything behind
            self.result_found = kani::any();
            self.to_continue = kani::any();
            match kani::any::<u8>() & 3 {
                0 => Err(ArtError::Locked),
                1 => Err(ArtError::VersionNotMatch),
                _ => { SCANNED = Some(kani::any()); Ok(SCANNED.unwrap()) }
            }
        }
    }
}
