//! A minimal HTTP client: one connection from its own loopback address.
use std::io::{BufRead, BufReader, Read, Write};
use std::net::TcpStream;
use std::os::fd::FromRawFd;
use std::sync::atomic::{AtomicU32, Ordering};
use std::time::Duration;

pub struct Client {
    r: BufReader<TcpStream>,
    pub sent: usize,
}

#[derive(Debug, Clone, PartialEq)]
pub struct Response {
    pub status: u16,
    pub headers: Vec<(String, String)>,
    pub body: String,
}

impl Response {
    pub fn header(&self, name: &str) -> Option<&str> {
        self.headers.iter().find(|(n, _)| n.eq_ignore_ascii_case(name)).map(|(_, v)| v.as_str())
    }
}

static NEXT: AtomicU32 = AtomicU32::new(0);

fn addr(ip: u32, port: u16) -> libc::sockaddr_in {
    // SAFETY: plain data.
    let mut a: libc::sockaddr_in = unsafe { std::mem::zeroed() };
    a.sin_family = libc::AF_INET as _;
    a.sin_port = port.to_be();
    a.sin_addr.s_addr = ip.to_be();
    a
}

/// Another client: every connection comes from an address that no other one had.
pub fn connect(port: u16) -> std::io::Result<Client> {
    connect_from(port, address(), 0)
}

/// An address that no client had.
pub fn address() -> u32 {
    let n = NEXT.fetch_add(1, Ordering::Relaxed);
    (127 << 24) + (1 << 16) + n * 2 + 3
}

/// A client with the given address and port (0 is any).
pub fn connect_from(port: u16, ip: u32, source: u16) -> std::io::Result<Client> {
    // SAFETY: plain system calls over initialized addresses.
    let s = unsafe {
        let fd = libc::socket(libc::AF_INET, libc::SOCK_STREAM | libc::SOCK_CLOEXEC, 0);
        if fd < 0 {
            return Err(std::io::Error::last_os_error());
        }
        let s = TcpStream::from_raw_fd(fd);
        let len = std::mem::size_of::<libc::sockaddr_in>() as u32;
        // leave nothing behind when it is closed
        let linger = libc::linger { l_onoff: 1, l_linger: 0 };
        libc::setsockopt(fd, libc::SOL_SOCKET, libc::SO_LINGER, &linger as *const _ as *const _, std::mem::size_of::<libc::linger>() as u32);
        let from = addr(ip, source);
        if libc::bind(fd, &from as *const _ as *const _, len) != 0 {
            return Err(std::io::Error::last_os_error());
        }
        let to = addr((127 << 24) + 1, port);
        if libc::connect(fd, &to as *const _ as *const _, len) != 0 {
            return Err(std::io::Error::last_os_error());
        }
        s
    };
    s.set_nodelay(true)?;
    s.set_read_timeout(Some(Duration::from_secs(20)))?;
    Ok(Client { r: BufReader::new(s), sent: 0 })
}

impl Client {
    pub fn send(&mut self, method: &str, path: &str, body: Option<&[u8]>) -> std::io::Result<Response> {
        self.send_with(method, path, body, "")
    }

    /// `headers`: complete lines.
    pub fn send_with(&mut self, method: &str, path: &str, body: Option<&[u8]>, headers: &str) -> std::io::Result<Response> {
        let mut m = format!("{} {} HTTP/1.1\r\nHost: localhost\r\n{}", method, path, headers).into_bytes();
        if let Some(b) = body {
            m.extend(format!("Content-Type: application/json\r\nContent-Length: {}\r\n", b.len()).bytes());
        }
        m.extend(b"\r\n");
        if let Some(b) = body {
            m.extend(b);
        }
        self.sent += 1;
        self.r.get_mut().write_all(&m)?;
        self.receive()
    }

    fn line(&mut self) -> std::io::Result<String> {
        let mut s = String::new();
        if self.r.read_line(&mut s)? == 0 {
            return Err(std::io::Error::new(std::io::ErrorKind::UnexpectedEof, "the connection was closed"));
        }
        Ok(s.trim_end().to_string())
    }

    fn receive(&mut self) -> std::io::Result<Response> {
        let bad = |s: &str| std::io::Error::new(std::io::ErrorKind::InvalidData, s.to_string());
        let first = self.line()?;
        let status = first.split(' ').nth(1).and_then(|s| s.parse().ok()).ok_or_else(|| bad(&first))?;
        let mut headers = vec![];
        loop {
            let l = self.line()?;
            if l.is_empty() {
                break;
            }
            let (n, v) = l.split_once(':').ok_or_else(|| bad(&l))?;
            headers.push((n.trim().to_string(), v.trim().to_string()));
        }
        let mut r = Response { status, headers, body: String::new() };
        let mut body = vec![];
        if r.header("transfer-encoding").map_or(false, |v| v.contains("chunked")) {
            loop {
                let l = self.line()?;
                let n = usize::from_str_radix(l.trim(), 16).map_err(|_| bad(&l))?;
                let mut chunk = vec![0; n];
                self.r.read_exact(&mut chunk)?;
                self.line()?;
                if n == 0 {
                    break;
                }
                body.extend(chunk);
            }
        } else {
            let n: usize = r.header("content-length").unwrap_or("0").parse().map_err(|_| bad("length"))?;
            body = vec![0; n];
            self.r.read_exact(&mut body)?;
        }
        r.body = String::from_utf8(body).map_err(|_| bad("not UTF-8"))?;
        Ok(r)
    }
}
