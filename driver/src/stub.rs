//! Stand-ins for what the crate does not offer when it is compiled without some of its optional features.
//! Never called: the scenarios of such a build do not contain the calls.
#![allow(dead_code)]

#[cfg(not(feature = "ser"))]
pub use noser::*;
#[cfg(not(feature = "zip"))]
pub use nozip::*;

#[cfg(not(feature = "zip"))]
mod nozip {
    use pkstl::{Error, Result, Seed32};
    use std::io::{BufWriter, Write};

    #[derive(Debug)]
    pub enum SecureLayer {}
    impl SecureLayer {
        pub fn create<C>(_: C, _: Option<Seed32>, _: Option<Vec<u8>>) -> Result<Self> {
            Err(Error::FailtoGenSigKeyPair)
        }
        pub fn try_clone(&mut self) -> Result<Self> {
            match *self {}
        }
        pub fn change_config<C>(&mut self, _: C) -> Result<()> {
            match *self {}
        }
        pub fn read_bin(&mut self, _: &[u8]) -> Result<Vec<IncomingBinaryMessage>> {
            match *self {}
        }
        pub fn write_connect_msg_bin<W: Write>(&mut self, _: Option<&[u8]>, _: &mut BufWriter<W>) -> Result<()> {
            match *self {}
        }
        pub fn write_ack_msg_bin<W: Write>(&mut self, _: Option<&[u8]>, _: &mut BufWriter<W>) -> Result<()> {
            match *self {}
        }
        pub fn write_bin<W: Write>(&mut self, _: &[u8], _: &mut BufWriter<W>) -> Result<()> {
            match *self {}
        }
    }
    pub enum IncomingBinaryMessage {
        Connect { custom_data: Option<Vec<u8>>, peer_sig_public_key: Vec<u8> },
        Ack { custom_data: Option<Vec<u8>> },
        Message { data: Option<Vec<u8>> },
    }
}

#[cfg(not(feature = "ser"))]
mod noser {
    #[cfg(not(feature = "zip"))]
    use super::nozip::SecureLayer;
    #[cfg(feature = "zip")]
    use pkstl::SecureLayer;
    use pkstl::{Error, Result};
    use std::io::{BufWriter, Write};

    pub enum IncomingMessage<M> {
        Connect { custom_data: Option<M>, peer_sig_public_key: Vec<u8> },
        Ack { custom_data: Option<M> },
        Message { data: Option<M> },
    }
    pub trait TypedCalls {
        fn read<M>(&mut self, _: &[u8]) -> Result<Vec<IncomingMessage<M>>> {
            Err(Error::FailtoGenSigKeyPair)
        }
        fn write_connect_msg<M, W: Write>(&mut self, _: Option<&M>, _: &mut BufWriter<W>) -> Result<()> {
            Err(Error::FailtoGenSigKeyPair)
        }
        fn write_ack_msg<M, W: Write>(&mut self, _: Option<&M>, _: &mut BufWriter<W>) -> Result<()> {
            Err(Error::FailtoGenSigKeyPair)
        }
        fn write<M, W: Write>(&mut self, _: &M, _: &mut BufWriter<W>) -> Result<()> {
            Err(Error::FailtoGenSigKeyPair)
        }
    }
    impl TypedCalls for SecureLayer {}
}
