//! Socket options of simulated connections.
use gwtokio::net::TcpStream;
pub struct SockRef<'a>(&'a TcpStream);
impl<'a> From<&'a TcpStream> for SockRef<'a> {
    fn from(s: &'a TcpStream) -> Self {
        Self(s)
    }
}
impl SockRef<'_> {
    pub fn set_tcp_user_timeout(&self, d: Option<std::time::Duration>) -> std::io::Result<()> {
        self.0.set_user_timeout(d);
        Ok(())
    }
    pub fn set_tcp_nodelay(&self, _: bool) -> std::io::Result<()> {
        Ok(())
    }
}
