// shared by the roots that run pipelines inside this process

/// a reader that gives out its contents in the scripted fragments
struct Scripted {
    data: Vec<u8>,
    pos: usize,
    head: std::collections::VecDeque<usize>,
    rest: usize,
    eofs: usize,
}

impl std::io::Read for Scripted {
    fn read(&mut self, buf: &mut [u8]) -> std::io::Result<usize> {
        if self.pos >= self.data.len() || buf.is_empty() {
            self.eofs += 1;
            assert!(self.eofs < 100_000, "no progress at the end of the stream");
            return Ok(0);
        }
        let n = self.head.pop_front().unwrap_or(self.rest);
        let n = n.max(1).min(buf.len()).min(self.data.len() - self.pos);
        buf[..n].copy_from_slice(&self.data[self.pos..self.pos + n]);
        self.pos += n;
        Ok(n)
    }
}

struct InProc;

impl InProc {
    fn run_impl(&mut self, case: &Case) -> Result<Vec<u8>, String> {
        let argv = std::iter::once("nd".to_string()).chain(case.args.iter().cloned());
        let args = PipelineArgs::try_parse_from(argv).map_err(|e| format!("{e}"))?;
        let pipeline = Pipeline::from_args(&args).map_err(|e| format!("{e:?}"))?;
        let sources: Vec<Box<dyn std::io::Read + Send>> = case
            .inputs
            .iter()
            .zip(&case.frags)
            .map(|(d, f)| {
                let r = Scripted { data: d.clone(), pos: 0, head: f.head.iter().copied().collect(), rest: f.rest, eofs: 0 };
                let r: Box<dyn std::io::Read + Send> = Box::new(r);
                r
            })
            .collect();
        let mut stream = pipeline.spawn_stream(sources).map_err(|e| format!("{e:?}"))?;
        let mut out = Vec::new();
        let mut stalls = 0;
        let mut eof_at = None;
        let mut step = 0;
        let mut wanted_more: Option<usize> = None;
        loop {
            let (request, take) = if case.consumer.is_empty() {
                (BLOCK_SIZE, Take::All)
            } else {
                case.consumer[step % case.consumer.len()]
            };
            step += 1;
            let (is_eof, bytes) = stream.fill_buf(request).map_err(|e| format!("{e:?}"))?;
            if let Some(e) = eof_at {
                if !is_eof || out.len() + bytes != e {
                    return Err(format!("!after EOF was reported at {e}, the stream has {} bytes (eof: {is_eof})", out.len() + bytes));
                }
            }
            if let Some(prev) = wanted_more.take() {
                if !is_eof && bytes <= prev {
                    return Err(format!("!the stream did not grow after consume(0): {prev} -> {bytes} bytes, not EOF"));
                }
            }
            if is_eof {
                eof_at = Some(out.len() + bytes);
                if bytes == 0 {
                    return Ok(out);
                }
            }
            let s = stream.as_slice();
            if s.len() < bytes {
                return Err(format!("!as_slice() has {} bytes whereas fill_buf() said {bytes}", s.len()));
            }
            let n = match take {
                Take::All => bytes,
                Take::Upto(k) => k.min(bytes),
                Take::Nothing if is_eof => bytes,
                Take::Nothing => 0,
            };
            out.extend_from_slice(&s[..n]);
            stream.consume(n);
            if n == 0 && bytes > 0 {
                wanted_more = Some(bytes);
            }
            stalls = if n == 0 { stalls + 1 } else { 0 };
            if stalls > 1000 {
                return Err("!no progress".to_string());
            }
        }
    }
}
