"""Planted bugs: each breaks one property in a way that ordinary use does not expose."""
BUGS = []
def bug(id, property, needs, breaks, edits, demo, features=None, profile="", kit=True): BUGS.append(dict(id=id, property=property, needs=needs, breaks=breaks, edits=edits, demo=demo, features=features, profile=profile, kit=kit))
MIN = "src/minimal.rs"; ST = "src/status.rs"; RD = "src/reader.rs"

bug("b01a", "C01", "an expected key that is a prefix of the peer's key",
    "the expected key is compared byte by byte over the shorter of the two, so a truncated (or empty) expected key pins nothing",
    [(MIN, "if sig_pubkey != peer_sig_pubkey {", "if sig_pubkey.iter().zip(peer_sig_pubkey.iter()).any(|(a, b)| a != b) {")],
    r'''
fn main() {
    let p = Peer::new(2, &[7; 32]);
    for n in &[0usize, 16, 31] {
        let mut l = layer(Some(p.pk[..*n].to_vec()));
        check(l.read_bin(&p.connect(b"")).is_err(), "a CONNECT was accepted from a key that is not the expected one");
    }
}
''')

bug("b01b", "C01", "a layer without expected key, which has first refused a CONNECT of its own ephemeral key reflected or is already negotiated; a second key then signs an ACK",
    "the signature of an ACK is verified with the key of the last CONNECT seen rather than with the adopted one",
    [(MIN, "                if let Some(ref peer_sig_pubkey) = self.peer_sig_pubkey {\n                    if sig_pubkey != peer_sig_pubkey {\n                        return Err(Error::UnexpectedRemoteSigPubKey);\n                    }\n                }",
      "                if let Some(peer_sig_pubkey) = self.peer_sig_pubkey.replace(sig_pubkey.clone()) {\n                    if *sig_pubkey != peer_sig_pubkey {\n                        return Err(Error::UnexpectedRemoteSigPubKey);\n                    }\n                }")],
    r'''
fn main() {
    let mut a = Peer::new(2, &[7; 32]);
    let mut s = Peer::new(3, &[8; 32]);
    let mut l = layer(Some(a.pk.clone()));
    let c = connect_of(&mut l);
    a.hear(&c);
    s.hear(&c);
    check(l.read_bin(&s.connect(b"")).is_err(), "the stranger was accepted at once");
    let r = l.read_bin(&s.connect(b""));
    check(r.is_err(), "the stranger was accepted at the second attempt");
    check(l.read_bin(&a.connect(b"")).is_ok(), "the expected peer is refused");
}
''')

bug("b02a", "C02", "bytes appended to a genuine CONNECT or ACK",
    "only the first 64 bytes after the content are taken as the signature, so bytes can be added to a signed message",
    [(MIN, "let sig = &data[user_msg_end..];", "let sig = &data[user_msg_end..data.len().min(user_msg_end + 64)];")],
    r'''
fn main() {
    let p = Peer::new(2, &[7; 32]);
    let mut l = layer(None);
    let mut m = p.connect(b"");
    m.push(0);
    check(l.read_bin(&m).is_err(), "a CONNECT with an added byte was accepted");
}
''')

bug("b02b", "C02", "an ACK with a forged signature that arrives before the CONNECT and is set aside",
    "the message set aside is read again without the checks of a fresh one, so its signature is never verified",
    [(MIN, "            self.read(&bin_ack_msg)\n", "            self.read_inner(&bin_ack_msg, false)\n"),
     (MIN, "if !self.verify_sig(&data, peer_sig_pubkey, user_msg_end) {", "if check_encrypt_state && !self.verify_sig(&data, peer_sig_pubkey, user_msg_end) {")],
    r'''
use pkstl::IncomingBinaryMessage as M;
fn main() {
    let mut p = Peer::new(2, &[7; 32]);
    let mut s = Peer::new(3, &[8; 32]);
    let mut l = layer(None);
    let c = connect_of(&mut l);
    p.hear(&c);
    s.hear(&c);
    check(l.read_bin(&s.ack(b"")).expect("set aside").is_empty(), "early ACK delivered");
    let r = l.read_bin(&p.connect(b"")).expect("connect");
    check(!r.iter().any(|m| if let M::Ack { .. } = m { true } else { false }), "an ACK signed by a stranger was reported");
}
''')

bug("b03a", "C03", "an ACK signed by the right peer whose challenge agrees with the right one on its first half only",
    "half of the challenge is compared",
    [(MIN, "if challenge != sha256(self.ephemeral_pubkey.as_ref()).as_ref() {", "if challenge[..16] != sha256(self.ephemeral_pubkey.as_ref()).as_ref()[..16] {")],
    r'''
fn main() {
    let mut p = Peer::new(2, &[7; 32]);
    let mut l = layer(None);
    p.hear(&connect_of(&mut l));
    l.read_bin(&p.connect(b"")).expect("connect");
    let mut ch = wire::sha(&p.their_epk);
    ch[31] ^= 1;
    check(l.read_bin(&p.sign(wire::ack(&ch, b""))).is_err(), "an ACK with another challenge was accepted");
}
''')

bug("b03b", "C03", "an ACK signed by the right peer with the challenge of the peer's own ephemeral key",
    "an ACK is accepted for either of the two ephemeral keys of the session instead of the layer's own",
    [(MIN, "                if challenge != sha256(self.ephemeral_pubkey.as_ref()).as_ref() {\n",
      "                let own_keys = [Some(self.ephemeral_pubkey.as_ref()), self.peer_epk.as_deref()];\n                if !own_keys.iter().flatten().any(|k| challenge == sha256(k).as_ref()) {\n")],
    r'''
fn main() {
    let mut p = Peer::new(2, &[7; 32]);
    let mut l = layer(None);
    p.hear(&connect_of(&mut l));
    l.read_bin(&p.connect(b"")).expect("connect");
    check(l.read_bin(&p.sign(wire::ack(&wire::sha(&p.eph.pk), b""))).is_err(), "an ACK for another ephemeral key was accepted");
}
''')

bug("b04a", "C04", "a write after the peer's ACK is read and before our own ACK is issued",
    "user data can be written as soon as everything of the peer has arrived although our own ACK was not issued, which also completes the negotiation",
    [(ST, "                        *self = Self::Fail;\n                        Err(Error::NegoMustHaveBeenSuccessful)\n",
      "                        if *remote == RemoteNegoThread::ValidConnectMsgReceived\n                            && *local == LocalNegoThread::ValidAckMsgReceived\n                        {\n                            // The peer has acknowledged us\n                            Ok(None)\n                        } else {\n                            *self = Self::Fail;\n                            Err(Error::NegoMustHaveBeenSuccessful)\n                        }\n"),
    ],
    r'''
fn main() {
    let mut p = Peer::new(2, &[7; 32]);
    let mut l = layer(None);
    p.hear(&connect_of(&mut l));
    l.read_bin(&p.connect(b"")).expect("connect");
    l.read_bin(&p.ack(b"")).expect("ack");
    check(out(|w| l.write_bin(b"data", w)).is_err(), "user data written before the ACK");
}
''')

bug("b04b", "C04", "an ACK issued before our own CONNECT, then a user message of the peer",
    "user messages are held as soon as the own ACK is issued, and delivered although the own CONNECT never was",
    [(ST, "                        if *remote == RemoteNegoThread::AckMsgSent\n                            && *local == LocalNegoThread::ConnectMsgSent\n                        {",
      "                        if *remote == RemoteNegoThread::AckMsgSent {"),
     (ST, "                        if *local == LocalNegoThread::ConnectMsgSent {\n                            if *remote == RemoteNegoThread::AckMsgSent {",
      "                        if *local != LocalNegoThread::ValidAckMsgReceived {\n                            if *remote == RemoteNegoThread::AckMsgSent {")],
    r'''
use pkstl::MinimalSecureLayer;
// the ephemeral key of a layer that never issued its CONNECT is only known through its debug form
fn main() {
    let mut p = Peer::new(2, &[7; 32]);
    let mut l = MinimalSecureLayer::create(Default::default(), None).expect("create");
    l.read(&p.connect(b"")).expect("connect");
    let _ = l.create_ack_message(None).expect("ack");
    let s = format!("{:?}", l);
    let hex = s.split("ephemeral_pubkey: EphemeralPublicKey(PublicKey").nth(1).and_then(|t| t.split('"').nth(1)).map(|t| t.to_string());
    let hex = hex.unwrap_or_default();
    if hex.len() != 64 {
        println!("the debug form does not show the ephemeral key: nothing to show");
        return;
    }
    let epk: Vec<u8> = (0..32).map(|i| u8::from_str_radix(&hex[2 * i..2 * i + 2], 16).expect("hex")).collect();
    p.their_epk = epk.clone();
    p.sess = p.eph.session(&epk);
    let _ = l.read(&p.user(0, b"x"));
    let _ = l.read(&p.ack(b""));
    check(l.try_clone().is_err(), "negotiated without having issued its CONNECT");
}
''')

bug("b05a", "C05", "an ACK with more than 4 KiB of custom data that overtakes the CONNECT",
    "a long ACK that arrives first is not set aside: it fails the layer",
    [(MIN, "                } else if self.ack_msg_recv_too_early.is_none() {\n", "                } else if self.ack_msg_recv_too_early.is_none() && incoming_data.len() <= 4096 {\n")],
    r'''
fn main() {
    let mut p = Peer::new(2, &[7; 32]);
    let mut l = layer(None);
    p.hear(&connect_of(&mut l));
    let body = vec![0x5A; 5000];
    check(l.read_bin(&p.ack(&wire::deflate(&body, 0))).is_ok(), "the long ACK that overtook the CONNECT is refused");
    check(l.read_bin(&p.connect(b"")).map(|m| m.len()).unwrap_or(0) == 2, "connect and ack");
    ack_of(&mut l);
    check(l.try_clone().is_ok(), "the negotiation does not complete");
}
''')

bug("b05b", "C05", "an ACK that overtakes the CONNECT of a peer, when the ACK carries no custom data",
    "the ACK that was set aside is only reported when it carries custom data",
    [("src/complete.rs", "if let Some(Message::Ack { custom_data }) = ack_msg_recv_too_early {\n                        messages.push(IncomingBinaryMessage::Ack {\n                            custom_data: if let Some(custom_data) = custom_data {\n                                Some(Self::uncompress(&custom_data)?)\n                            } else {\n                                None\n                            },\n                        });\n                    }",
      "if let Some(Message::Ack {\n                        custom_data: Some(custom_data),\n                    }) = ack_msg_recv_too_early\n                    {\n                        messages.push(IncomingBinaryMessage::Ack {\n                            custom_data: Some(Self::uncompress(&custom_data)?),\n                        });\n                    }")],
    r'''
use pkstl::IncomingBinaryMessage as M;
fn main() {
    let mut p = Peer::new(2, &[7; 32]);
    let mut l = layer(None);
    p.hear(&connect_of(&mut l));
    check(l.read_bin(&p.ack(b"")).expect("early").is_empty(), "early ACK delivered");
    let r = l.read_bin(&p.connect(b"")).expect("connect");
    check(r.iter().any(|m| if let M::Ack { .. } = m { true } else { false }), "the ACK set aside is not reported");
}
''')

bug("b06a", "C06", "an undecryptable message on a negotiated layer",
    "a message that cannot be decrypted no longer fails the layer",
    [(MIN, "            Err(e) => {\n                self.status = SecureLayerStatus::Fail;\n                return Err(e);\n            }\n        };",
      "            Err(e) => {\n                match e {\n                    Error::FailToDecryptData(_) => {}\n                    _ => self.status = SecureLayerStatus::Fail,\n                }\n                return Err(e);\n            }\n        };")],
    r'''
fn main() {
    let (mut l, p) = negotiated(None);
    let mut m = p.user(0, b"a");
    m[5] ^= 1;
    check(l.read_bin(&m).is_err(), "undecryptable message accepted");
    check(l.read_bin(&p.user(0, b"a")).is_err(), "the failed layer still reads");
}
''')

bug("b06b", "C06", "a write of user data that fails in the writer, then another call",
    "a layer whose write of user data failed goes on as if nothing had happened",
    [(MIN, "            Err(e) => {\n                self.status = SecureLayerStatus::Fail;\n                Err(e)\n            }\n        }\n    }\n    #[inline]\n    fn encapsulate_and_encrypt_and_write_message",
      "            Err(e) => {\n                match e {\n                    // Nothing wrong on our side, the next message will tell\n                    Error::FailToEncryptData(_) => {}\n                    _ => self.status = SecureLayerStatus::Fail,\n                }\n                Err(e)\n            }\n        }\n    }\n    #[inline]\n    fn encapsulate_and_encrypt_and_write_message")],
    r'''
use std::io::{BufWriter, Error, ErrorKind, Write};
struct Bad;
impl Write for Bad {
    fn write(&mut self, _: &[u8]) -> std::io::Result<usize> { Err(Error::new(ErrorKind::Other, "disk full")) }
    fn flush(&mut self) -> std::io::Result<()> { Ok(()) }
}
fn main() {
    let (mut l, _p) = negotiated(None);
    {
        let mut w = BufWriter::with_capacity(16, Bad);
        check(l.write_bin(&[5; 300], &mut w).is_err(), "write on a broken writer succeeded");
        std::mem::forget(w);
    }
    check(out(|w| l.write_bin(b"again", w)).is_err(), "the failed layer still writes");
    check(l.try_clone().is_err(), "the failed layer can still be cloned");
}
''')

bug("b06c", "C06", "a second CONNECT signed by the peer on a negotiated layer, later genuine messages",
    "an unexpected CONNECT on a negotiated layer is refused without failing it",
    [(ST, "                    MsgType::Connect => {\n                        *self = Self::Fail;\n                        Err(Error::RecvInvalidMsg(IncomingMsgErr::UnexpectedConnectMsg))\n                    }\n                    MsgType::Ack => {\n                        *self = Self::Fail;",
      "                    MsgType::Connect => {\n                        Err(Error::RecvInvalidMsg(IncomingMsgErr::UnexpectedConnectMsg))\n                    }\n                    MsgType::Ack => {\n                        *self = Self::Fail;")],
    r'''
fn main() {
    let (mut l, p) = negotiated(None);
    check(l.read_bin(&p.connect(b"")).is_err(), "second CONNECT accepted");
    check(l.read_bin(&p.user(0, b"a")).is_err(), "the failed layer still reads");
}
''')

bug("b07a", "C07", "a user message with a wrong hash inside a genuine encryption, ahead of its turn, then the genuine message of that number",
    "the number of an out-of-order message is recorded before its hash is verified",
    [(MIN, "                // Verify hash\n                let data_hashed", "                // Remember the number of a message received out of order\n                let orphan = nonce != self.next_nonce_expected\n                    && self.orphan_nonce_list.len() < MAX_ORPHAN_NONCES\n                    && self.orphan_nonce_list.insert(nonce);\n\n                // Verify hash\n                let data_hashed"),
     (MIN, "                } else {\n                    if self.orphan_nonce_list.len() >= MAX_ORPHAN_NONCES {\n                        self.status = SecureLayerStatus::Fail;\n                        return Err(Error::TooManyUnorderedMsgs);\n                    }\n\n                    self.orphan_nonce_list.insert(nonce);\n                }",
      "                } else if !orphan {\n                    self.status = SecureLayerStatus::Fail;\n                    return Err(Error::TooManyUnorderedMsgs);\n                }")],
    r'''
fn main() {
    let (mut l, p) = negotiated(None);
    let mut m = wire::user(3, &wire::deflate(b"forged", 0));
    m.extend_from_slice(&[9; 32]);
    check(l.read_bin(&p.seal(&m)).is_err(), "wrong hash accepted");
    check(datas(l.read_bin(&p.user(3, b"genuine"))) == vec![b"genuine".to_vec()], "the rejected message consumed the number");
}
''')

bug("b07b", "C07", "an ACK with a wrong challenge between the ACK set aside and the CONNECT",
    "an ACK with a wrong challenge throws away the genuine ACK set aside",
    [(MIN, "                    return Err(IncomingMsgErr::InvalidChallenge.into());", "                    return Err(self.refuse_ack());"),
     (MIN, "    #[inline]\n    /// Read incoming data\n", "    fn refuse_ack(&mut self) -> Error {\n        self.ack_msg_recv_too_early = None;\n        IncomingMsgErr::InvalidChallenge.into()\n    }\n    #[inline]\n    /// Read incoming data\n")],
    r'''
fn main() {
    let mut p = Peer::new(2, &[7; 32]);
    let mut l = layer(None);
    p.hear(&connect_of(&mut l));
    l.read_bin(&p.ack(b"")).expect("early");
    check(l.read_bin(&p.sign(wire::ack(&[9; 32], b""))).is_err(), "wrong challenge accepted");
    l.read_bin(&p.connect(b"")).expect("connect");
    ack_of(&mut l);
    check(l.try_clone().is_ok(), "the rejected ACK made the genuine one disappear");
}
''')

bug("b07c", "C07", "a CONNECT of a stranger received once the negotiation is complete",
    "a CONNECT of an unexpected key fails the layer when the negotiation is over",
    [(MIN, "                        return Err(Error::UnexpectedRemoteSigPubKey);", "                        return match self.status {\n                            SecureLayerStatus::NegotiationSuccessful => {\n                                self.status = SecureLayerStatus::Fail;\n                                Err(Error::UnexpectedRemoteSigPubKey)\n                            }\n                            _ => Err(Error::UnexpectedRemoteSigPubKey),\n                        };")],
    r'''
fn main() {
    let (mut l, p) = negotiated(None);
    let s = Peer::new(3, &[8; 32]);
    check(l.read_bin(&s.connect(b"")).is_err(), "stranger accepted");
    check(datas(l.read_bin(&p.user(0, b"a"))).len() == 1, "a stranger's CONNECT fails the layer");
}
''')

bug("b08a", "C08", "a clone made while messages have been received ahead of a missing one, then a replay of one of them to the clone",
    "a clone forgets the numbers received out of order",
    [(MIN, "orphan_nonce_list: self.orphan_nonce_list.clone(),", "orphan_nonce_list: BTreeSet::new(),")],
    r'''
fn main() {
    let (mut l, p) = negotiated(None);
    let m = p.user(2, b"a");
    check(datas(l.read_bin(&m)).len() == 1, "not delivered");
    let mut c = l.try_clone().expect("clone");
    check(c.read_bin(&m).is_err(), "the clone delivers a replay");
}
''')

bug("b08b", "C08", "two gaps at once: the first is filled while a message is known beyond the second one, which is then replayed",
    "filling a gap forgets every number received out of order, also those beyond another gap",
    [(MIN, "                    while self.orphan_nonce_list.remove(&self.next_nonce_expected) {\n                        self.next_nonce_expected += 1;\n                    }",
      "                    if !self.orphan_nonce_list.is_empty() {\n                        for orphan in std::mem::take(&mut self.orphan_nonce_list) {\n                            if orphan == self.next_nonce_expected {\n                                self.next_nonce_expected += 1;\n                            }\n                        }\n                    }")],
    r'''
fn main() {
    let (mut l, p) = negotiated(None);
    let m = p.user(3, b"a");
    check(datas(l.read_bin(&p.user(1, b"b"))).len() == 1, "1");
    check(datas(l.read_bin(&m)).len() == 1, "3");
    check(datas(l.read_bin(&p.user(0, b"c"))).len() == 1, "0");
    check(l.read_bin(&m).is_err(), "a replay is delivered");
}
''')

bug("b09a", "C09", "at least three messages, the highest first; then one in the middle",
    "a message older than the highest number received is refused unless it is the next one expected",
    [(MIN, "if nonce < self.next_nonce_expected || self.orphan_nonce_list.contains(&nonce) {",
      "if nonce < self.next_nonce_expected\n                    || self.orphan_nonce_list.range(nonce..=nonce.saturating_add(64)).count() > 32\n                    || self.orphan_nonce_list.contains(&nonce)\n                {")],
    r'''
fn main() {
    let (mut l, p) = negotiated(None);
    for n in 2..60 {
        check(datas(l.read_bin(&p.user(n, b"a"))).len() == 1, "ahead");
    }
    check(datas(l.read_bin(&p.user(1, b"b"))).len() == 1, "a late genuine message is refused");
}
''')

bug("b09b", "C09", "several messages held before the ACK of the peer, in another order than their numbers",
    "the messages held are delivered by number instead of in arrival order (they are kept sorted)",
    [(MIN, "                    self.tmp_stack_user_msgs.push(data);\n", "                    let place = match self.tmp_stack_user_msgs.binary_search(&data) {\n                        Ok(place) | Err(place) => place,\n                    };\n                    self.tmp_stack_user_msgs.insert(place, data);\n")],
    r'''
fn main() {
    let mut p = Peer::new(2, &[7; 32]);
    let mut l = layer(None);
    p.hear(&connect_of(&mut l));
    l.read_bin(&p.connect(&[])).expect("read connect");
    ack_of(&mut l);
    for n in &[2u64, 0, 1] {
        check(datas(l.read_bin(&p.user(*n, &[*n as u8]))).is_empty(), "early delivery");
    }
    check(datas(l.read_bin(&p.ack(&[]))) == vec![vec![2u8], vec![0], vec![1]], "not in arrival order");
}
''')

bug("b10a", "C10", "a gap filled while several messages wait behind it, then 10,000 messages ahead of another missing one",
    "filling a gap releases one number only",
    [(MIN, "                    while self.orphan_nonce_list.remove(&self.next_nonce_expected) {", "                    if self.orphan_nonce_list.remove(&self.next_nonce_expected) {")],
    r'''
fn main() {
    let (mut l, p) = negotiated(None);
    for n in &[1u64, 2, 3, 4, 0] {
        check(datas(l.read_bin(&p.user(*n, b"a"))).len() == 1, "first messages");
    }
    for n in 6..10_006 {
        check(datas(l.read_bin(&p.user(n, b"a"))).len() == 1, "the capacity is not available again");
    }
}
''')

bug("b10b", "C10", "a message more than 10,000 numbers ahead while few messages are missing",
    "the distance of the number is bounded rather than the quantity of messages out of order",
    [(MIN, "if self.orphan_nonce_list.len() >= MAX_ORPHAN_NONCES {", "if nonce - self.next_nonce_expected > MAX_ORPHAN_NONCES as u64 {")],
    r'''
fn main() {
    let (mut l, p) = negotiated(None);
    check(datas(l.read_bin(&p.user(10_001, b"a"))).len() == 1, "a single message ahead is refused");
}
''')

bug("b11a", "C11", "a user message in a genuine encryption whose trailing hash is cut short",
    "a truncated or missing hash is accepted as long as what is left of it agrees",
    [(MIN, "if hash != sha256(data_hashed).as_ref() {", "if !sha256(data_hashed).as_ref().starts_with(hash) {")],
    r'''
fn main() {
    let (mut l, p) = negotiated(None);
    let m = wire::user(0, &wire::deflate(b"no hash", 0));
    check(datas(l.read_bin(&p.seal(&m))).is_empty(), "a message without hash is delivered");
}
''')

bug("b11b", "C11", "an ACK or a CONNECT sent inside the encryption",
    "only user messages in clear are refused, negotiation messages inside the encryption are read",
    [(RD, "if check_encrypt_state && data_encrypted != msg_type_headers.must_be_encrypted() {", "if check_encrypt_state && !data_encrypted && msg_type_headers.must_be_encrypted() {")],
    r'''
fn main() {
    let mut p = Peer::new(2, &[7; 32]);
    let mut l = layer(None);
    p.hear(&connect_of(&mut l));
    l.read_bin(&p.connect(b"")).expect("connect");
    check(l.read_bin(&p.seal(&p.ack(b""))).is_err(), "an ACK inside the encryption is accepted");
}
''')

bug("b12a", "C12", "a peer that restarts its negotiation after the layer answered: a second CONNECT of the same peer with another ephemeral key",
    "a second CONNECT is accepted after the ACK was issued, but the secret stays that of the first one: user messages of the first session are delivered in the second",
    [(ST, "                        if *remote == RemoteNegoThread::WaitConnectMsg {\n                            *remote = RemoteNegoThread::ValidConnectMsgReceived;",
      "                        if *remote != RemoteNegoThread::ValidConnectMsgReceived {\n                            *remote = RemoteNegoThread::ValidConnectMsgReceived;")],
    r'''
fn main() {
    let mut p = Peer::new(2, &[7; 32]);
    let mut l = layer(None);
    let c = connect_of(&mut l);
    p.hear(&c);
    let mut p2 = Peer::new(2, &[8; 32]);
    p2.hear(&c);
    l.read_bin(&p.connect(&[])).expect("read connect");
    ack_of(&mut l);
    if l.read_bin(&p2.connect(&[])).is_ok() {
        let _ = out(|w| l.write_ack_msg_bin(None, w));
        let _ = l.read_bin(&p2.ack(&[]));
        check(datas(l.read_bin(&p.user(0, b"old session"))).is_empty(), "a message of the first session is delivered in the second");
        check(false, "a second CONNECT was accepted");
    }
}
''')

bug("b13a", "C13", "nothing particular, but only an independent computation shows it",
    "the session key is derived from the first two bytes of the agreement: any eavesdropper finds it in 65,536 attempts",
    [("src/agreement.rs", "|key_material| Ok(derive(key_material, salt, shared_secret_len)),", "|key_material| Ok(derive(&key_material[..2], salt, shared_secret_len)),")],
    r'''
fn main() {
    let (mut l, p) = negotiated(None);
    let c = out(|w| l.write_bin(b"payload", w)).expect("write");
    let salt = if p.eph.pk > p.their_epk { p.eph.pk.clone() } else { p.their_epk.clone() };
    for i in 0..=0xffffu32 {
        let mut k = [0u8; 48];
        ring::pbkdf2::derive(ring::pbkdf2::PBKDF2_HMAC_SHA384, std::num::NonZeroU32::new(3).expect("3"), &salt, &(i as u16).to_be_bytes(), &mut k);
        check(wire::Session(k).open(&c).is_none(), "opened without the secret");
    }
}
''')

bug("b14a", "C14", "a message that declares a gigantic length",
    "the declared length is reserved in memory before it is compared with what was received",
    [(RD, "    let decrypted_data = buffer.into_inner().map_err(|_| Error::BufferFlushError)?;", "    let mut decrypted_data = buffer.into_inner().map_err(|_| Error::BufferFlushError)?;"),
     (RD, "    let encapsuled_msg_size = u64::from_be_bytes(buffer_8_bytes);\n", "    let encapsuled_msg_size = u64::from_be_bytes(buffer_8_bytes);\n    decrypted_data.reserve_exact(encapsuled_msg_size as usize);\n")],
    r'''
fn main() {
    let p = Peer::new(2, &[7; 32]);
    let mut m = p.connect(b"");
    for i in 8..16 { m[i] = 0xff; }
    let r = std::panic::catch_unwind(move || { let mut l = layer(None); let _ = l.read_bin(&m); });
    check(r.is_ok(), "reading panics");
}
''')

bug("b14b", "C14", "a user message that bears the greatest possible number",
    "the number is incremented before it is compared, which overflows",
    [(MIN, "if nonce < self.next_nonce_expected || self.orphan_nonce_list.contains(&nonce) {", "if nonce + 1 <= self.next_nonce_expected || self.orphan_nonce_list.contains(&nonce) {")],
    r'''
fn main() {
    let r = std::panic::catch_unwind(|| { let (mut l, p) = negotiated(None); datas(l.read_bin(&p.user(std::u64::MAX, b"a"))).len() });
    check(if let Ok(1) = r { true } else { false }, "the greatest number panics or is refused");
}
''')

bug("b15a", "C15", "a message of more than 65,535 bytes read by an independent implementation",
    "the length field is computed on 16 bits and the reader ignores the declared length of encrypted messages",
    [("src/message.rs", ".write(&(encapsuled_msg_size as u64).to_be_bytes())", ".write(&u64::from(encapsuled_msg_size as u32 & 0x00ff_ffff).to_be_bytes())")],
    r'''
fn main() {
    let (mut l, p) = negotiated(None);
    let d: Vec<u8> = vec![7; 17_000_000];
    let cfg = pkstl::SecureLayerConfig { compression: flate2::Compression::none(), ..Default::default() };
    l.change_config(cfg).expect("cfg");
    let c = out(|w| l.write_bin(&d, w)).expect("write");
    check(p.open(&c) == Some((0, d)), "an independent peer cannot read a message of 17 MB");
}
''')

bug("b15b", "C15", "a message of another version whose last byte is the same",
    "only the last byte of the version is compared",
    [(RD, "if decrypted_data[MAGIC_VALUE_END..VERSION_END] != CURRENT_VERSION {", "if decrypted_data[MAGIC_VALUE_END..VERSION_END].last() != CURRENT_VERSION.last() {")],
    r'''
fn main() {
    let p = Peer::new(2, &[7; 32]);
    let mut m = wire::connect(&p.eph.pk, &p.pk, b"");
    m[4] = 1;
    let mut l = layer(None);
    check(l.read_bin(&p.sign(m)).is_err(), "version 0x01000001 is accepted");
}
''')

bug("b16a", "C16", "custom data that is present but empty",
    "empty custom data is sent as absent",
    [("src/complete.rs", "        // Serialize and compress custom data\n        let custom_data = if let Some(custom_data) = custom_data {", "        // Serialize and compress custom data\n        let custom_data = if let Some(custom_data) = custom_data.filter(|d| !d.is_empty()) {")],
    r'''
fn main() {
    let mut p = Peer::new(2, &[7; 32]);
    let mut l = layer(None);
    p.hear(&connect_of(&mut l));
    l.read_bin(&p.connect(b"")).expect("connect");
    let a = out(|w| l.write_ack_msg_bin(Some(b""), w)).expect("ack");
    check(wire::inflate(&a[50..a.len() - 64]) == Some(vec![]), "empty custom data is absent on the wire");
}
''')

bug("b16b", "C16", "content that happens to be itself a complete deflate stream, in a message under the compression threshold",
    "messages under the threshold are sent as they are and the reader inflates whatever can be inflated",
    [("src/complete.rs", "        // Create compressor\n", "        if bin_message.len() < self.minimal_secure_layer.config.compression_min_size / 512 && bin_message.len() > 1 {\n            return Ok(bin_message.to_vec());\n        }\n\n        // Create compressor\n"),
     ("src/complete.rs", "        deflate_decoder\n            .write_all(&bin_zip_msg)\n            .map_err(Error::ZipError)?;\n        deflate_decoder.finish().map_err(Error::ZipError)",
      "        // Small messages are not compressed\n        if deflate_decoder.write_all(&bin_zip_msg).is_err() {\n            return Ok(bin_zip_msg.to_vec());\n        }\n        deflate_decoder.finish().or_else(|_| Ok(bin_zip_msg.to_vec()))")],
    r'''
fn main() {
    let (mut l, p) = negotiated(None);
    let d = wire::deflate(b"abc", 6);
    let c = out(|w| l.write_bin(&d, w)).expect("write");
    check(p.open(&c) == Some((0, d.clone())), "the content is not deflated on the wire");
}
''')

bug("b17a", "C17", "a typed message whose announced format is unknown",
    "an unknown format is read as if it were JSON",
    [("src/complete/serde/deserializer.rs", "    let message_format = MessageFormat::try_from(&binary_message[..HEADER_FORMAT_LEN])?;", "    let message_format = match MessageFormat::try_from(&binary_message[..HEADER_FORMAT_LEN]) {\n        Ok(message_format) => message_format,\n        #[cfg(feature = \"json\")]\n        Err(_) if binary_message[0] == 0 => MessageFormat::Utf8Json,\n        Err(e) => return Err(e.into()),\n    };")],
    r'''
fn main() {
    let (mut l, p) = negotiated(None);
    let m = p.user(0, b"\0\0\0\x05[1,2]");
    check(l.read::<Vec<u32>>(&m).is_err(), "an unknown format is read");
}
''')

bug("b17b", "C17", "a Bincode message shorter or longer than the value it announces, read as a typed value",
    "bytes that follow the value of a JSON message are ignored",
    [("src/complete/serde/deserializer.rs", "            Ok(serde_json::from_slice::<M>(binary_message).map_err(SerdeError::JsonError)?)", "            let mut values = serde_json::Deserializer::from_slice(binary_message).into_iter::<M>();\n            match values.next() {\n                Some(value) => Ok(value.map_err(SerdeError::JsonError)?),\n                None => Ok(serde_json::from_slice::<M>(binary_message).map_err(SerdeError::JsonError)?),\n            }")],
    r'''
fn main() {
    let (mut l, p) = negotiated(None);
    let m = p.user(0, b"\0\0\0\x02[1,2] [3]");
    check(l.read::<Vec<u32>>(&m).is_err(), "a malformed JSON message is read");
}
''')

bug("b18a", "C18", "a configuration change asked to a clone",
    "only the original refuses a configuration change once cloned, not the clones",
    [(MIN, "                cloned: true,\n", "                cloned: false,\n")],
    r'''
fn main() {
    let (mut l, _p) = negotiated(None);
    let mut c = l.try_clone().expect("clone");
    check(l.change_config(Default::default()).is_err(), "original");
    check(c.change_config(Default::default()).is_err(), "the clone accepts a configuration change");
}
''')

bug("b18b", "C18", "a clone made after the original has written messages, which then writes",
    "a clone starts numbering its messages from the numbers received instead of those sent",
    [(MIN, "next_nonce_sent: self.next_nonce_sent,", "next_nonce_sent: self.next_nonce_expected,")],
    r'''
fn main() {
    let (mut l, p) = negotiated(None);
    for _ in 0..3 { out(|w| l.write_bin(b"a", w)).expect("write"); }
    let mut c = l.try_clone().expect("clone");
    let m = out(|w| c.write_bin(b"b", w)).expect("write");
    check(p.open(&m) == Some((3, b"b".to_vec())), "the clone does not go on where the original stood");
}
''')

bug("b18c", "C18", "a minimal layer cloned after the peer's ACK and before the early messages are drained",
    "a clone does not take over the user messages held",
    [(MIN, "tmp_stack_user_msgs: self.tmp_stack_user_msgs.clone(),", "tmp_stack_user_msgs: Vec::new(),")],
    r'''
use pkstl::MinimalSecureLayer;
fn main() {
    let mut p = Peer::new(2, &[7; 32]);
    let mut l = MinimalSecureLayer::create(Default::default(), None).expect("create");
    let c = l.create_connect_message(&[1; 32], None).expect("connect");
    p.hear(&c);
    l.read(&p.connect(b"")).expect("connect");
    l.create_ack_message(None).expect("ack");
    check(l.read(&p.user(0, b"early")).expect("early").is_none(), "early delivery");
    l.read(&p.ack(b"")).expect("ack");
    let mut c = l.try_clone().expect("clone");
    check(c.drain_tmp_stack_user_msgs().expect("drain").len() == 1, "the clone lost the message held");
}
''')

bug("b19a", "C19", "a writer that accepts the body of a CONNECT and fails on its signature",
    "the error of the writer on the signature is swallowed",
    [("src/complete/writer.rs", "        .write_all(sig_key_pair.sign(bin_msg).as_ref())\n        .map_err(|_| Error::BufferFlushError)\n", "        .write_all(sig_key_pair.sign(bin_msg).as_ref())\n        .or(Ok(()))\n")],
    r'''
use std::io::{BufWriter, Error, ErrorKind, Write};
struct Room(usize);
impl Write for Room {
    fn write(&mut self, b: &[u8]) -> std::io::Result<usize> {
        if self.0 == 0 { return Err(Error::new(ErrorKind::Other, "full")); }
        let n = b.len().min(self.0);
        self.0 -= n;
        Ok(n)
    }
    fn flush(&mut self) -> std::io::Result<()> { Ok(()) }
}
fn main() {
    let mut l = layer(None);
    let mut w = BufWriter::with_capacity(8, Room(100));
    check(l.write_connect_msg_bin(None, &mut w).is_err(), "success although the signature was not written");
    std::mem::forget(w);
}
''')

bug("b19b", "C19", "a payload larger than the buffer of the writer, over a writer that accepts a part at a time",
    "the encrypted message is handed over with a single write, whose count is ignored",
    [("src/encryption/chacha20_poly1305_aead.rs", "        reader,\n        writer,\n    )\n    .map_err(Error::FailToEncryptData)?;\n\n    writer\n        .write_all(&tag)\n        .map_err(Error::FailToEncryptData)?;\n",
      "        reader,\n        &mut encrypted_data,\n    )\n    .map_err(Error::FailToEncryptData)?;\n    encrypted_data.extend_from_slice(&tag);\n\n    writer\n        .write(&encrypted_data)\n        .map_err(Error::FailToEncryptData)?;\n"),
     ("src/encryption/chacha20_poly1305_aead.rs", "    let tag = chacha20_poly1305_aead::encrypt_read(", "    let mut encrypted_data = Vec::new();\n    let tag = chacha20_poly1305_aead::encrypt_read(")],
    r'''
use std::io::{BufWriter, Write};
use std::sync::{Arc, Mutex};
struct Bits(Arc<Mutex<Vec<u8>>>);
impl Write for Bits {
    fn write(&mut self, b: &[u8]) -> std::io::Result<usize> {
        let n = b.len().min(100);
        self.0.lock().expect("lock").extend_from_slice(&b[..n]);
        Ok(n)
    }
    fn flush(&mut self) -> std::io::Result<()> { Ok(()) }
}
fn main() {
    let (mut l, p) = negotiated(None);
    let got = Arc::new(Mutex::new(Vec::new()));
    let mut w = BufWriter::with_capacity(64, Bits(got.clone()));
    let r = l.write_bin(&[5; 3000], &mut w).and_then(|()| w.flush().map_err(pkstl::Error::WriteError));
    check(r.is_err() || p.open(&got.lock().expect("lock")) == Some((0, vec![5; 3000])), "success although a part only was written");
}
''')

bug("b20a", "C20", "messages received ahead of time by a layer that has written less, then a write",
    "the numbers of the messages sent jump to those received",
    [(MIN, "                self.next_nonce_sent += 1;\n", "                self.next_nonce_sent = self\n                    .next_nonce_sent\n                    .max(self.orphan_nonce_list.len() as u64)\n                    + 1;\n")],
    r'''
fn main() {
    let (mut l, p) = negotiated(None);
    for n in 3..8 { let _ = l.read_bin(&p.user(n, b"a")); }
    for n in 0..3u64 {
        let m = out(|w| l.write_bin(b"b", w)).expect("write");
        check(p.open(&m) == Some((n, b"b".to_vec())), "the numbers are not consecutive");
    }
}
''')

bug("b20b", "C20", "a second call to issue the CONNECT once the peer's CONNECT is answered",
    "the CONNECT can be issued again as long as the peer's ACK has not arrived and the own ACK is issued",
    [(ST, "                        if *local == LocalNegoThread::Created {", "                        if *local == LocalNegoThread::Created\n                            || (*local == LocalNegoThread::ConnectMsgSent\n                                && *remote == RemoteNegoThread::AckMsgSent)\n                        {")],
    r'''
fn main() {
    let p = Peer::new(2, &[7; 32]);
    let mut l = layer(None);
    connect_of(&mut l);
    l.read_bin(&p.connect(b"")).expect("connect");
    ack_of(&mut l);
    check(out(|w| l.write_connect_msg_bin(None, w)).is_err(), "a second CONNECT is issued");
}
''')

bug("b21a", "C21", "two ephemeral keys with the same first byte (one session in 256)",
    "the order of the two ephemeral keys is decided on their first byte",
    [("src/agreement.rs", "if self.pubkey.as_ref() > other_ephemeral_public_key {", "if self.pubkey.as_ref().first() > other_ephemeral_public_key.first() {")],
    r'''
fn main() {
    for i in 0..4000u32 {
        let mut s = [9u8; 32];
        s[..4].copy_from_slice(&i.to_be_bytes());
        let mut p = Peer::new(2, &s);
        let mut l = layer(None);
        p.hear(&connect_of(&mut l));
        if p.their_epk[0] != p.eph.pk[0] || p.their_epk < p.eph.pk { continue; }
        l.read_bin(&p.connect(b"")).expect("connect");
        ack_of(&mut l);
        l.read_bin(&p.ack(b"")).expect("ack");
        check(datas(l.read_bin(&p.user(0, b"a"))).len() == 1, "the two ends do not hold the same secret");
        return;
    }
}
''')

bug("b21b", "C21", "a peer ephemeral key of small order",
    "when the agreement fails the session goes on with a secret anyone can compute",
    [("src/agreement.rs", "            |key_material| Ok(derive(key_material, salt, shared_secret_len)),\n        )", "            |secret| Ok(derive(secret, salt, shared_secret_len)),\n        )\n        .or_else(|_| Ok(derive(salt, salt, shared_secret_len)))")],
    r'''
fn main() {
    let p = Peer::new(2, &[7; 32]);
    let mut l = layer(None);
    check(l.read_bin(&p.sign(wire::connect(&[0; 32], &p.pk, b""))).is_err(), "a degenerate key is accepted");
}
''')

bug("b22a", "C22", "a replayed number on a layer that has failed meanwhile",
    "the state is examined before the number, so the reason given for a replay changes with it",
    [(MIN, "                if nonce < self.next_nonce_expected || self.orphan_nonce_list.contains(&nonce) {", "                if self.status != SecureLayerStatus::Fail\n                    && (nonce < self.next_nonce_expected || self.orphan_nonce_list.contains(&nonce))\n                {")],
    r'''
fn main() {
    let (mut l, p) = negotiated(None);
    let m = p.user(0, b"a");
    let _ = l.read_bin(&m);
    let _ = l.read_bin(&p.connect(b""));
    let r = l.read_bin(&m);
    check(format!("{:?}", r).contains("InvalidNonce"), "another reason is given");
}
''')

bug("b22b", "C22", "an ACK asked for again once the negotiation is complete",
    "a negotiated layer that is asked for its ACK answers that its CONNECT is already written",
    [(ST, "                    MsgType::Ack => Err(Error::ForbidWriteAckMsgNow),\n                    MsgType::UserMsg => Ok(None),", "                    MsgType::Ack => Err(Error::ConnectMsgAlreadyWritten),\n                    MsgType::UserMsg => Ok(None),")],
    r'''
use pkstl::Error;
fn main() {
    let (mut l, _p) = negotiated(None);
    let r = out(|w| l.write_ack_msg_bin(None, w));
    check(if let Err(Error::ForbidWriteAckMsgNow) = r { true } else { false }, "another reason is given");
}
''')

WR = "src/complete/writer.rs"; CO = "src/complete.rs"; MSG = "src/message.rs"; DE = "src/complete/serde/deserializer.rs"; SE = "src/complete/serde/serializer.rs"; AG = "src/agreement.rs"; CH = "src/encryption/chacha20_poly1305_aead.rs"

bug("b23a", "C23", "two layers created without a seed by one process",
    "the random seed of layers created without one is drawn once per process: they all share one identity",
    [(CO, "        let seed = sig_key_pair_seed.unwrap_or_else(Seed32::random);\n",
      "        static DEFAULT_SEED: std::sync::Mutex<Option<[u8; 32]>> = std::sync::Mutex::new(None);\n        let seed = sig_key_pair_seed.unwrap_or_else(|| {\n            let mut default_seed = DEFAULT_SEED.lock().unwrap_or_else(|e| e.into_inner());\n            Seed32::new(*default_seed.get_or_insert_with(|| {\n                let mut bytes = [0u8; 32];\n                bytes.copy_from_slice(Seed32::random().as_ref());\n                bytes\n            }))\n        });\n")],
    r'''
fn main() {
    let pk = |_| {
        let mut l = SecureLayer::create(SecureLayerConfig::default(), None, None).expect("create");
        connect_of(&mut l)[54..86].to_vec()
    };
    check(pk(0) != pk(1), "two layers without seed have the same identity");
}
use pkstl::{SecureLayer, SecureLayerConfig};
''')

bug("b23b", "C23", "a seed whose last byte has its high bit set",
    "the seed is clamped as if it were an X25519 key, so that some seeds give another identity than theirs",
    [(CO, "        let seed = sig_key_pair_seed.unwrap_or_else(Seed32::random);\n",
      "        let mut seed = sig_key_pair_seed.unwrap_or_else(Seed32::random);\n        seed.as_mut()[31] &= 0x7F;\n")],
    r'''
use pkstl::{SecureLayer, SecureLayerConfig, Seed32};
use ring::signature::{Ed25519KeyPair, KeyPair};
fn main() {
    for s in &[[1u8; 32], [0x80; 32], [0xFF; 32]] {
        let mut l = SecureLayer::create(SecureLayerConfig::default(), Some(Seed32::new(*s)), None).expect("create");
        let kp = Ed25519KeyPair::from_seed_unchecked(s).expect("kp");
        check(connect_of(&mut l)[54..86] == *kp.public_key().as_ref(), "another identity than the one of the seed");
    }
}
''')

bug("b24a", "C24", "a CONNECT given to two layers of one process",
    "CONNECT messages already read by any layer of the process are refused by the others as replays",
    [(MIN, "                if !self.verify_sig(&data, sig_pubkey, user_msg_end) {\n", "                static SEEN: std::sync::Mutex<BTreeSet<Vec<u8>>> = std::sync::Mutex::new(BTreeSet::new());\n                let fresh = data.len() < 512\n                    || self.encrypt_algo_with_secret.is_some()\n                    || SEEN\n                        .lock()\n                        .unwrap_or_else(|e| e.into_inner())\n                        .insert(sha256(&data).as_ref().to_vec());\n                if !fresh || !self.verify_sig(&data, sig_pubkey, user_msg_end) {\n")],
    r'''
fn main() {
    let p = Peer::new(2, &[7; 32]);
    let c = p.connect(&wire::deflate(&[5; 600], 0));
    for _ in 0..2 {
        check(layer(None).read_bin(&c).is_ok(), "a layer refuses what another layer has read");
    }
}
''')

bug("b24b", "C24", "two layers of one process that talk to the same ephemeral key of a peer",
    "the agreed secret is kept in a cache of the thread under the peer's ephemeral key alone",
    [(MIN, "            let shared_secret = ephemeral_kp.compute_shared_secret(\n                peer_ephemeral_public_key,\n                encrypt_algo.shared_secret_len(),\n            )?;\n\n            self.encrypt_algo_with_secret =\n                Some(EncryptAlgoWithSecretKey::build(encrypt_algo, shared_secret));\n\n            Ok(())\n",
      "            thread_local! {\n                static LAST: std::cell::RefCell<Option<(Vec<u8>, Vec<u8>, EncryptAlgoWithSecretKey)>> =\n                    std::cell::RefCell::new(None);\n            }\n            let own = self.peer_sig_pubkey.clone().unwrap_or_default();\n            let cached = LAST.with(|last| match &*last.borrow() {\n                Some((k, o, secret)) if k[..] == *peer_ephemeral_public_key && *o != own => {\n                    Some(secret.clone())\n                }\n                _ => None,\n            });\n            let secret = match cached {\n                Some(secret) => secret,\n                None => EncryptAlgoWithSecretKey::build(\n                    encrypt_algo,\n                    ephemeral_kp.compute_shared_secret(\n                        peer_ephemeral_public_key,\n                        encrypt_algo.shared_secret_len(),\n                    )?,\n                ),\n            };\n            LAST.with(|last| {\n                *last.borrow_mut() =\n                    Some((peer_ephemeral_public_key.to_vec(), own, secret.clone()))\n            });\n            self.encrypt_algo_with_secret = Some(secret);\n\n            Ok(())\n")],
    r'''
fn go(id: u8) -> bool {
    let mut l = layer(None);
    let mut p = Peer::new(id, &[7; 32]);
    p.hear(&connect_of(&mut l));
    l.read_bin(&p.connect(&[])).expect("connect");
    ack_of(&mut l);
    l.read_bin(&p.ack(&[])).expect("ack");
    datas(l.read_bin(&p.user(0, b"a"))).len() == 1
}
fn main() {
    check(go(2), "alone");
    check(go(3), "a layer uses the secret of another");
}
''')

bug("b24c", "C24", "several layers of one process that together hold 10,000 messages out of order",
    "the messages out of order are counted for all the layers of the process together",
    [(MIN, "                    if self.orphan_nonce_list.len() >= MAX_ORPHAN_NONCES {",
      "                    static ORPHANS: std::sync::atomic::AtomicUsize =\n                        std::sync::atomic::AtomicUsize::new(0);\n                    let total = ORPHANS.fetch_add(1, std::sync::atomic::Ordering::Relaxed);\n                    if self.orphan_nonce_list.len() >= MAX_ORPHAN_NONCES || total >= 20 * MAX_ORPHAN_NONCES {")],
    r'''
fn main() {
    for _ in 0..25 {
        let (mut l, p) = negotiated(None);
        for n in 1..=9000 {
            check(l.read_bin(&p.user(n, b"")).is_ok(), "a layer suffers from the messages of the others");
        }
    }
}
''')

bug("b25a", "C25", "a CONNECT asked for a second time",
    "the magic value is put on the writer before the state allows the message",
    [(WR, "        let bin_connect_msg = sl.minimal_secure_layer.create_connect_message(\n", "        writer\n            .write_all(&crate::constants::MAGIC_VALUE)\n            .map_err(|_| Error::BufferFlushError)?;\n        let created_msg = sl.minimal_secure_layer.create_connect_message(\n"),
     (WR, "        // Write connect message\n        writer\n            .write_all(&bin_connect_msg)\n            .map_err(|_| Error::BufferFlushError)?;\n\n        // Sign message and write signature\n        sign_bin_msg_and_write_sig(sig_key_pair, &bin_connect_msg, writer)\n", "        // Write connect message\n        writer\n            .write_all(&created_msg[crate::constants::MAGIC_VALUE.len()..])\n            .map_err(|_| Error::BufferFlushError)?;\n\n        // Sign message and write signature\n        sign_bin_msg_and_write_sig(sig_key_pair, &created_msg, writer)\n")],
    r'''
use std::io::BufWriter;
fn main() {
    let mut l = layer(None);
    connect_of(&mut l);
    let mut w = BufWriter::new(Vec::new());
    check(l.write_connect_msg_bin(None, &mut w).is_err(), "issued twice");
    check(w.buffer().is_empty() && w.get_ref().is_empty(), "a refused call wrote something");
}
''')

bug("b25b", "C25", "user data written by a failed layer which had a secret",
    "a failed layer still encrypts what it is asked to write before it refuses",
    [(MIN, "        // Update status\n        self.status.apply_action(Action::Create(MsgType::UserMsg))?;\n\n        match self.encapsulate_and_encrypt_and_write_message(data, writer) {\n            Ok(()) => {\n                self.status = SecureLayerStatus::NegotiationSuccessful;\n",
      "        // Update status\n        let allowed = self.status.apply_action(Action::Create(MsgType::UserMsg));\n        if self.encrypt_algo_with_secret.is_none() {\n            allowed?;\n            return Err(Error::TryToWriteMsgWhenNegoNotSuccessful);\n        }\n\n        match self.encapsulate_and_encrypt_and_write_message(data, writer) {\n            Ok(()) => {\n                allowed?;\n                self.status = SecureLayerStatus::NegotiationSuccessful;\n")],
    r'''
use std::io::BufWriter;
fn main() {
    let (mut l, p) = negotiated(None);
    let _ = l.read_bin(&p.connect(b""));
    let mut w = BufWriter::new(Vec::new());
    check(l.write_bin(b"data", &mut w).is_err(), "a failed layer writes");
    check(w.buffer().is_empty() && w.get_ref().is_empty(), "a refused call wrote something");
}
''')

bug("b16c", "C16", "a content that does not fit in one go in the encoder",
    "the content is handed over to the encoder with a single write whose count is ignored",
    [(CO, "            .write_all(&bin_message[..])\n            .map_err(Error::ZipError)?;\n\n        // Finalize", "            .write(&bin_message[..])\n            .map_err(Error::ZipError)?;\n\n        // Finalize")],
    r'''
fn main() {
    for n in &[100usize, 40_000, 100_000, 300_000] {
        let (mut l, p) = negotiated(None);
        let d: Vec<u8> = wire::Rng(*n as u64).bytes(*n);
        let m = out(|w| l.write_bin(&d, w)).expect("write");
        check(p.open(&m).map(|x| x.1) == Some(d), "the content is not the one given");
    }
}
''')

bug("b16d", "C16", "a content that compresses more than 200 times",
    "a guard against decompression bombs refuses genuine contents that compress well",
    [(CO, "        let mut deflate_decoder = DeflateDecoder::new(Vec::with_capacity(bin_zip_msg.len() * 5));\n        deflate_decoder\n            .write_all(&bin_zip_msg)\n            .map_err(Error::ZipError)?;\n        deflate_decoder.finish().map_err(Error::ZipError)\n",
      "        let mut deflate_decoder = DeflateDecoder::new(Vec::with_capacity(bin_zip_msg.len() * 5));\n        deflate_decoder\n            .write_all(&bin_zip_msg)\n            .map_err(Error::ZipError)?;\n        let bin_msg = deflate_decoder.finish().map_err(Error::ZipError)?;\n        if bin_msg.len() / 200 > bin_zip_msg.len() {\n            return Err(Error::ZipError(std::io::ErrorKind::InvalidData.into()));\n        }\n        Ok(bin_msg)\n")],
    r'''
fn main() {
    let (mut l, p) = negotiated(None);
    let mut m = wire::user(0, &wire::deflate(&vec![0; 100_000], 9));
    wire::add_hash(&mut m);
    check(datas(l.read_bin(&p.seal(&m))).len() == 1, "a content is refused");
}
''')

bug("b08c", "C08", "more than 1,024 messages out of order, then a replay of the first one of them",
    "a number is only looked for among the 1,024 greatest received out of order",
    [(MIN, "self.orphan_nonce_list.contains(&nonce) {", "self.orphan_nonce_list.iter().rev().take(1_024).any(|n| *n == nonce) {")],
    r'''
fn main() {
    let (mut l, p) = negotiated(None);
    for n in 8000..9500 { check(l.read_bin(&p.user(n, b"")).is_ok(), "refused"); }
    check(l.read_bin(&p.user(8000, b"")).is_err(), "a replay is accepted");
}
''')

bug("b07d", "C07", "more than 256 rejected messages on one layer",
    "a layer that has rejected 257 messages fails",
    [(MIN, "    tmp_stack_user_msgs: Vec<Vec<u8>>,\n}", "    tmp_stack_user_msgs: Vec<Vec<u8>>,\n    /// Rejected messages\n    rejected: u8,\n}"),
     (MIN, "                tmp_stack_user_msgs: self.tmp_stack_user_msgs.clone(),\n", "                tmp_stack_user_msgs: self.tmp_stack_user_msgs.clone(),\n                rejected: self.rejected,\n"),
     (MIN, "            tmp_stack_user_msgs: Vec::new(),\n        };", "            tmp_stack_user_msgs: Vec::new(),\n            rejected: 0,\n        };"),
     (MIN, "                    return Err(IncomingMsgErr::InvalidChallenge.into());\n", "                    self.rejected = self.rejected.saturating_add(1);\n                    return Err(if self.rejected < u8::max_value() {\n                        IncomingMsgErr::InvalidChallenge.into()\n                    } else {\n                        self.status = SecureLayerStatus::Fail;\n                        Error::ConnectionHadFail\n                    });\n")],
    r'''
fn main() {
    let mut p = Peer::new(2, &[7; 32]);
    let mut l = layer(None);
    p.hear(&connect_of(&mut l));
    l.read_bin(&p.connect(b"")).expect("connect");
    let bad = p.sign(wire::ack(&[1; 32], b""));
    for _ in 0..300 { check(l.read_bin(&bad).is_err(), "accepted"); }
    ack_of(&mut l);
    check(l.read_bin(&p.ack(b"")).is_ok(), "rejected messages made the layer fail");
}
''')

bug("b18d", "C18", "a clone of a clone made while messages are out of order",
    "only the original hands over the numbers received out of order: the clone of a clone starts without them",
    [(MIN, "                orphan_nonce_list: self.orphan_nonce_list.clone(),\n", "                orphan_nonce_list: if self.peer_sig_pubkey.is_some() {\n                    self.orphan_nonce_list.clone()\n                } else {\n                    BTreeSet::new()\n                },\n")],
    r'''
fn main() {
    let (mut l, p) = negotiated(None);
    check(l.read_bin(&p.user(5, b"a")).is_ok(), "refused");
    let mut c = l.try_clone().expect("clone");
    check(c.read_bin(&p.user(5, b"a")).is_err(), "accepted by the clone");
    let mut c2 = c.try_clone().expect("clone");
    check(c2.read_bin(&p.user(5, b"a")).is_err(), "accepted by the clone of the clone");
}
''')

bug("b20c", "C20", "65,536 messages written through one handle",
    "the numbers written start again at 0 after 65,535",
    [(MIN, "                self.next_nonce_sent += 1;\n", "                self.next_nonce_sent = u64::from((self.next_nonce_sent as u16).wrapping_add(1));\n")],
    r'''
fn main() {
    let (mut l, p) = negotiated(None);
    for n in 0..65_540u64 {
        let m = out(|w| l.write_bin(b"", w)).expect("write");
        if n % 4096 < 4 { check(p.open(&m).map(|x| x.0) == Some(n), "wrong number"); }
    }
}
''')

bug("b09c", "C09", "a message number above 2^32",
    "the numbers of messages out of order are compared on their last 32 bits",
    [(MIN, "                if nonce < self.next_nonce_expected || self.orphan_nonce_list.contains(&nonce) {",
      "                if nonce < self.next_nonce_expected\n                    || self\n                        .orphan_nonce_list\n                        .range(nonce & 0xFFFF_FFFF..)\n                        .next()\n                        .map(|n| *n == nonce & 0xFFFF_FFFF || *n == nonce)\n                        .unwrap_or(false)\n                {")],
    r'''
fn main() {
    let (mut l, p) = negotiated(None);
    check(datas(l.read_bin(&p.user(5, b"a"))).len() == 1, "refused");
    check(datas(l.read_bin(&p.user((1 << 32) + 5, b"b"))).len() == 1, "a message is taken for another");
}
''')

bug("b11c", "C11", "a user message with a wrong hash, received before the peer's ACK",
    "the hash of the messages held is not verified when they are delivered",
    [(MIN, "                if hash != sha256(data_hashed).as_ref() {", "                if check_encrypt_state && hash != sha256(data_hashed).as_ref() {")],
    r'''
fn main() {
    let mut p = Peer::new(2, &[7; 32]);
    let mut l = layer(None);
    p.hear(&connect_of(&mut l));
    l.read_bin(&p.connect(b"")).expect("connect");
    ack_of(&mut l);
    let mut m = wire::user(0, &wire::deflate(b"abc", 0));
    m.extend_from_slice(&[0; 32]);
    l.read_bin(&p.seal(&m)).expect("held");
    check(datas(l.read_bin(&p.ack(b""))).is_empty(), "a message whose hash is wrong is delivered");
}
''')

bug("b13b", "C13", "a user message of more than 60,000 bytes",
    "big messages are written in clear, and read in clear",
    [(MIN, "        // Encrypt\n        encrypt(", "        if data_will_encrypted.len() > 60_000 {\n            return writer\n                .write_all(&data_will_encrypted)\n                .map_err(Error::WriteError);\n        }\n\n        // Encrypt\n        encrypt("),
     (RD, "    if check_encrypt_state && data_encrypted != msg_type_headers.must_be_encrypted() {", "    if check_encrypt_state\n        && data_encrypted != (msg_type_headers.must_be_encrypted() && incoming_data.len() <= 60_000)\n    {")],
    r'''
fn main() {
    for n in &[10usize, 59_000, 61_000, 200_000] {
        let (mut l, p) = negotiated(None);
        let d: Vec<u8> = wire::Rng(*n as u64).bytes(*n);
        let m = out(|w| l.write_bin(&d, w)).expect("write");
        check(m[..4] != wire::MAGIC && p.open(&m).map(|x| x.1) == Some(d), "user data is not encrypted");
    }
}
''')

bug("b14c", "C14", "a CONNECT or an ACK whose signature is cut short",
    "the signature is sliced to 64 bytes without looking whether there are as many",
    [(MIN, "        let sig = &data[user_msg_end..];\n", "        let (sig_r, sig_s) = data[user_msg_end..].split_at(32);\n        let sig = &[sig_r, sig_s].concat()[..];\n")],
    r'''
fn main() {
    let p = Peer::new(2, &[7; 32]);
    let c = p.connect(b"");
    for n in 0..c.len() {
        let _ = layer(None).read_bin(&c[..n]);
    }
}
''')

bug("b17c", "C17", "a reader that is configured with another format than the writer",
    "a typed content is read with the format of the reader's configuration when its first byte suits it",
    [(DE, "                custom_data: if let Some(custom_data) = custom_data {\n                    Some(deserialize(&custom_data)?)\n                } else {\n                    None\n                },\n            }),\n            IncomingBinaryMessage::Message", "                custom_data: if let Some(custom_data) = custom_data {\n                    Some(\n                        deserialize_inner(\n                            custom_data.get(HEADER_FORMAT_LEN..).unwrap_or(&[]),\n                            sl.minimal_secure_layer.config.message_format,\n                        )\n                        .or_else(|_| deserialize(&custom_data))?,\n                    )\n                } else {\n                    None\n                },\n            }),\n            IncomingBinaryMessage::Message")],
    r'''
use pkstl::{IncomingMessage as M, MessageFormat};
fn main() {
    let mut l = layer(None);
    let mut c = pkstl::SecureLayerConfig::default();
    c.message_format = MessageFormat::Bincode;
    l.change_config(c).expect("config");
    let mut p = Peer::new(2, &[7; 32]);
    p.hear(&connect_of(&mut l));
    l.read_bin(&p.connect(b"")).expect("connect");
    // the JSON of a number of eight digits: another number in Bincode
    let mut d = vec![0, 0, 0, 2];
    d.extend_from_slice(b"12345678");
    let r = l.read::<u64>(&p.ack(&wire::deflate(&d, 0))).expect("ack");
    check(if let Some(M::Ack { custom_data: Some(12345678) }) = r.get(0) { true } else { false }, "another value is read");
}
''')

bug("b19c", "C19", "a writer that fails on a CONNECT, then a second attempt",
    "a CONNECT whose writing failed can be issued again",
    [(WR, "        // Write connect message\n        writer\n            .write_all(&bin_connect_msg)\n            .map_err(|_| Error::BufferFlushError)?;\n\n        // Sign message and write signature\n        sign_bin_msg_and_write_sig(sig_key_pair, &bin_connect_msg, writer)\n",
      "        // Write connect message\n        let status = sl.minimal_secure_layer.status;\n        let written = writer\n            .write_all(&bin_connect_msg)\n            .map_err(|_| Error::BufferFlushError);\n        if written.is_err() {\n            // Nothing was sent\n            sl.minimal_secure_layer.status = crate::status::SecureLayerStatus::init();\n            written?;\n        }\n        sl.minimal_secure_layer.status = status;\n\n        // Sign message and write signature\n        sign_bin_msg_and_write_sig(sig_key_pair, &bin_connect_msg, writer)\n")],
    r'''
use std::io::{self, BufWriter, Write};
struct No;
impl Write for No {
    fn write(&mut self, _: &[u8]) -> io::Result<usize> { Err(io::ErrorKind::BrokenPipe.into()) }
    fn flush(&mut self) -> io::Result<()> { Ok(()) }
}
fn main() {
    let mut l = layer(None);
    let mut w = BufWriter::with_capacity(4, No);
    check(l.write_connect_msg_bin(None, &mut w).is_err(), "the failure is not reported");
    std::mem::forget(w);
    check(out(|w| l.write_connect_msg_bin(None, w)).is_err(), "the CONNECT is issued twice");
}
''')

bug("b01c", "C01", "a stranger whose public key differs from the expected one by differences that cancel each other",
    "the comparison with the expected key accumulates the differences with an exclusive or, so that they can cancel",
    [(MIN, "if sig_pubkey != peer_sig_pubkey {", "if sig_pubkey.len() != peer_sig_pubkey.len()\n                        || sig_pubkey.iter().zip(peer_sig_pubkey.iter()).fold(0, |d, (a, b)| d ^ a ^ b) != 0\n                    {")],
    r'''
fn main() {
    let p = Peer::new(2, &[7; 32]);
    let mut k = p.pk.clone();
    k.swap(3, 20);
    check(k == p.pk || layer(Some(k)).read_bin(&p.connect(b"")).is_err(), "a CONNECT was accepted from a key that is not the expected one");
}
''')

bug("b03c", "C03", "an ACK whose challenge is the right one with its bytes in another order",
    "the comparison of the challenge accumulates the differences with an exclusive or, so that they can cancel",
    [(MIN, "                if challenge != sha256(self.ephemeral_pubkey.as_ref()).as_ref() {\n", "                let own_challenge = sha256(self.ephemeral_pubkey.as_ref());\n                if challenge.iter().zip(own_challenge.as_ref()).fold(0, |d, (a, b)| d ^ a ^ b) != 0 {\n")],
    r'''
fn main() {
    let mut p = Peer::new(2, &[7; 32]);
    let mut l = layer(None);
    p.hear(&connect_of(&mut l));
    l.read_bin(&p.connect(b"")).expect("connect");
    let mut ch = wire::sha(&p.their_epk);
    ch.reverse();
    check(l.read_bin(&p.sign(wire::ack(&ch, b""))).is_err(), "an ACK with another challenge was accepted");
}
''')

bug("b11d", "C11", "a user message in a genuine encryption, two bytes of whose hash are exchanged",
    "the comparison of the hash accumulates the differences with an exclusive or, so that they can cancel",
    [(MIN, "                if hash != sha256(data_hashed).as_ref() {", "                if hash.len() != 32\n                    || hash.iter().zip(sha256(data_hashed).as_ref()).fold(0, |d, (a, b)| d ^ a ^ b) != 0\n                {")],
    r'''
fn main() {
    let (mut l, p) = negotiated(None);
    let mut m = wire::user(0, &wire::deflate(b"abc", 0));
    wire::add_hash(&mut m);
    let n = m.len();
    m[n - 32..].reverse();
    check(l.read_bin(&p.seal(&m)).is_err(), "a message whose hash is wrong is accepted");
}
''')

bug("b06d", "C06", "a layer that failed during the negotiation, then a CONNECT of a peer",
    "a failed layer starts its negotiation again when a valid CONNECT arrives before the secret was computed",
    [(ST, "            Self::Fail => Err(Error::ConnectionHadFail),\n", "            Self::Fail => {\n                if let Action::Receive(MsgType::Connect) = action {\n                    // The peer starts again\n                    *self = Self::OngoingNegotiation {\n                        local: LocalNegoThread::ConnectMsgSent,\n                        remote: RemoteNegoThread::ValidConnectMsgReceived,\n                    };\n                    Ok(None)\n                } else {\n                    Err(Error::ConnectionHadFail)\n                }\n            }\n")],
    r'''
fn main() {
    let p = Peer::new(2, &[7; 32]);
    let mut l = layer(None);
    connect_of(&mut l);
    check(l.read_bin(&[1, 2, 3]).is_err(), "noise accepted");
    check(l.read_bin(&p.connect(b"")).is_err(), "a failed layer goes on");
}
''')

bug("b04c", "C04", "a layer cloned after the peer's ACK was read and before its own was issued",
    "a layer can be cloned as soon as everything of the peer was accepted; the clone is negotiated",
    [(MIN, "        if self.status == SecureLayerStatus::NegotiationSuccessful {\n            self.cloned = true;", "        let everything_received = if let SecureLayerStatus::OngoingNegotiation { local, remote } = self.status {\n            local == crate::LocalNegoThread::ValidAckMsgReceived\n                && remote != crate::RemoteNegoThread::WaitConnectMsg\n        } else {\n            false\n        };\n        if self.status == SecureLayerStatus::NegotiationSuccessful || everything_received {\n            self.cloned = true;")],
    r'''
fn main() {
    let mut p = Peer::new(2, &[7; 32]);
    let mut l = layer(None);
    p.hear(&connect_of(&mut l));
    l.read_bin(&p.connect(b"")).expect("connect");
    l.read_bin(&p.ack(b"")).expect("ack");
    check(l.try_clone().is_err(), "cloned before the ACK was issued");
}
''')

bug("b21c", "C21", "the two ephemeral keys, compared from their last byte, are in another order than from their first one",
    "the order of the two ephemeral keys is decided from their last byte: the secret is not the documented one",
    [(AG, "        let salt = if self.pubkey.as_ref() > other_ephemeral_public_key {", "        let salt = if self.pubkey.as_ref().iter().rev().gt(other_ephemeral_public_key.iter().rev()) {")],
    r'''
fn main() {
    for i in 0..40u8 {
        let mut p = Peer::new(2, &[i; 32]);
        let mut l = layer(None);
        p.hear(&connect_of(&mut l));
        l.read_bin(&p.connect(b"")).expect("connect");
        ack_of(&mut l);
        l.read_bin(&p.ack(b"")).expect("ack");
        check(datas(l.read_bin(&p.user(0, b"a"))).len() == 1, "the two ends do not hold the same secret");
    }
}
''')

CO = "src/complete.rs"; WR = "src/complete/writer.rs"; SG = "src/signature.rs"; SZ = "src/complete/serde/serializer.rs"

bug("b02c", "C02", "custom data of more than 4 KB, changed beyond its 4,096th byte",
    "the signature covers the first 4,096 bytes of a message only, at both ends",
    [(MIN, "        let data_signed = &data[..user_msg_end];\n        let sig", "        let data_signed = &data[..user_msg_end.min(4_096)];\n        let sig"),
     (WR, ".write_all(sig_key_pair.sign(bin_msg).as_ref())", ".write_all(sig_key_pair.sign(&bin_msg[..bin_msg.len().min(4_096)]).as_ref())")],
    r'''
fn main() {
    let mut a = layer(None);
    let noise = wire::Rng(5).bytes(9_000);
    let mut m = out(|w| a.write_connect_msg_bin(Some(&noise), w)).expect("connect");
    let n = m.len();
    m[n - 100] ^= 1;
    check(layer(None).read_bin(&m).is_err(), "a CONNECT changed beyond its 4,096th byte was accepted");
}
''')

bug("b02d", "C02", "a genuine CONNECT read by a layer, then a changed copy of it read by another layer of the thread",
    "a signature that was verified once is remembered without the bytes it signs",
    [(SG, "    UnparsedPublicKey::new(&ring::signature::ED25519, pubkey)\n        .verify(message, sig)\n        .is_ok()\n",
      "    VERIFIED.with(|verified| {\n        let entry = [pubkey, sig].concat();\n        if *verified.borrow() == entry {\n            return true;\n        }\n        let ok = UnparsedPublicKey::new(&ring::signature::ED25519, pubkey)\n            .verify(message, sig)\n            .is_ok();\n        if ok {\n            *verified.borrow_mut() = entry;\n        }\n        ok\n    })\n"),
     (SG, "use ring::signature::UnparsedPublicKey;\n", "use ring::signature::UnparsedPublicKey;\nuse std::cell::RefCell;\n\nthread_local! {\n    /// Last signature verified\n    static VERIFIED: RefCell<Vec<u8>> = RefCell::new(Vec::new());\n}\n")],
    r'''
fn main() {
    let p = Peer::new(2, &[7; 32]);
    let m = p.connect(&wire::deflate(b"hello", 0));
    layer(None).read_bin(&m).expect("connect");
    let mut f = m.clone();
    let n = f.len();
    f[n - 65] ^= 1;
    f[20] ^= 1;
    check(layer(None).read_bin(&f).is_err(), "a changed CONNECT was accepted");
}
''')

bug("b09d", "C09", "more than 4,096 messages held until the peer's ACK",
    "of the messages held only the first 4,096 are delivered",
    [(MIN, "        for bin_msg in bin_msgs {\n", "        for bin_msg in bin_msgs.into_iter().take(4_096) {\n")],
    r'''
fn main() {
    let mut p = Peer::new(2, &[7; 32]);
    let mut l = layer(None);
    p.hear(&connect_of(&mut l));
    l.read_bin(&p.connect(b"")).expect("connect");
    ack_of(&mut l);
    for n in 0..5_000 {
        l.read_bin(&p.user(n, b"a")).expect("held");
    }
    check(datas(l.read_bin(&p.ack(b""))).len() == 5_000, "messages held were lost");
}
''')

bug("b08e", "C08", "a message out of order that was held until the peer's ACK, then received again",
    "the number of a message that was held is not recorded when it is out of order",
    [(MIN, "                    self.orphan_nonce_list.insert(nonce);\n", "                    if check_encrypt_state {\n                        self.orphan_nonce_list.insert(nonce);\n                    }\n")],
    r'''
fn main() {
    let mut p = Peer::new(2, &[7; 32]);
    let mut l = layer(None);
    p.hear(&connect_of(&mut l));
    l.read_bin(&p.connect(b"")).expect("connect");
    ack_of(&mut l);
    let m = p.user(3, b"a");
    l.read_bin(&m).expect("held");
    check(datas(l.read_bin(&p.ack(b""))).len() == 1, "not delivered");
    check(l.read_bin(&m).is_err(), "delivered twice");
}
''')

bug("b22c", "C22", "a message whose number is 2^63 or more",
    "the number is compared as a signed one",
    [(MIN, "                if nonce < self.next_nonce_expected || ", "                if (nonce as i64) < self.next_nonce_expected as i64 || ")],
    r'''
fn main() {
    let (mut l, p) = negotiated(None);
    check(l.read_bin(&p.user(1 << 63, b"a")).is_ok(), "refused");
}
''')

bug("b10c", "C10", "exactly 10,000 messages out of order, then the one that fills the gap",
    "the bound is applied to the message that fills the gap as well",
    [(MIN, "                if nonce == self.next_nonce_expected {\n", "                if nonce == self.next_nonce_expected && self.orphan_nonce_list.len() < MAX_ORPHAN_NONCES {\n")],
    r'''
fn main() {
    let (mut l, p) = negotiated(None);
    for n in 1..10_001 {
        l.read_bin(&p.user(n, b"")).expect("out of order");
    }
    check(l.read_bin(&p.user(0, b"")).is_ok(), "the message that fills the gap is refused");
}
''')

bug("b11e", "C11", "a user message of more than 64 KB, changed beyond that by someone who holds the secret",
    "the hash covers the first 65,536 bytes of a message only, at both ends",
    [(MIN, "if hash != sha256(data_hashed).as_ref() {", "if hash != sha256(&data_hashed[..data_hashed.len().min(65_536)]).as_ref() {"),
     (MIN, ".write(sha256(encapsuled_message.as_ref()).as_ref())", ".write(\n                sha256(&encapsuled_message.as_ref()[..encapsuled_message.as_ref().len().min(65_536)])\n                    .as_ref(),\n            )")],
    r'''
fn main() {
    let (mut l, p) = negotiated(None);
    let noise = wire::Rng(5).bytes(80_000);
    let mut m = wire::user(0, &wire::deflate(&noise, 0));
    let mut short = m[..65_536].to_vec();
    wire::add_hash(&mut short);
    m.extend_from_slice(&short[65_536..]);
    check(l.read_bin(&p.seal(&m)).is_err(), "a message whose hash is not that of its bytes is accepted");
}
''')

bug("b16e", "C16", "a content whose length is a multiple of 65,536",
    "the content is compressed by blocks of 64 KB; the last one is lost when it is full",
    [(CO, "        deflate_encoder\n            .write_all(&bin_message[..])\n            .map_err(Error::ZipError)?;\n",
      "        let full_blocks = bin_message.len().saturating_sub(1) / 65_536;\n        let (blocks, rest) = bin_message.split_at(full_blocks * 65_536);\n        for block in blocks.chunks(65_536) {\n            deflate_encoder.write_all(block).map_err(Error::ZipError)?;\n        }\n        deflate_encoder\n            .write_all(&rest[..bin_message.len() % 65_536])\n            .map_err(Error::ZipError)?;\n")],
    r'''
fn main() {
    let (mut l, p) = negotiated(None);
    let noise = wire::Rng(5).bytes(131_072);
    let m = out(|w| l.write_bin(&noise, w)).expect("write");
    check(p.open(&m).map(|x| x.1) == Some(noise), "the content is not the one written");
}
''')

bug("b18e", "C18", "a layer whose message format is not the default, cloned; the clone writes a typed message",
    "a clone works under the default configuration",
    [(MIN, "                config: self.config,\n                encrypt", "                config: SecureLayerConfig::default(),\n                encrypt")],
    r'''
fn main() {
    let (mut l, p) = negotiated(None);
    l.change_config(pkstl::SecureLayerConfig { compression_min_size: 0, compression: flate2::Compression::best(), ..Default::default() }).expect("config");
    let a = out(|w| l.write_bin(&[7; 5_000], w)).expect("write").len();
    let mut c = l.try_clone().expect("clone");
    let b = out(|w| c.write_bin(&[7; 5_000], w)).expect("write").len();
    let _ = p;
    check(a == b, "the clone does not have the configuration of its original");
}
''')

bug("b18f", "C18", "an attempt to clone that was refused, then a configuration change",
    "a refused attempt to clone freezes the configuration",
    [(MIN, "        if self.status == SecureLayerStatus::NegotiationSuccessful {\n            self.cloned = true;\n", "        self.cloned = true;\n        if self.status == SecureLayerStatus::NegotiationSuccessful {\n")],
    r'''
fn main() {
    let mut l = layer(None);
    check(l.try_clone().is_err(), "cloned before the negotiation");
    check(l.change_config(Default::default()).is_ok(), "the configuration is frozen although there is no clone");
}
''')

bug("b06e", "C06", "a negotiated layer that fails, then is cloned",
    "a failed layer can be cloned when it was negotiated once, and the clone works",
    [(MIN, "        if self.status == SecureLayerStatus::NegotiationSuccessful {\n            self.cloned = true;", "        let ongoing_negotiation =\n            if let SecureLayerStatus::OngoingNegotiation { .. } = self.status {\n                true\n            } else {\n                self.encrypt_algo_with_secret.is_none()\n            };\n        if !ongoing_negotiation {\n            self.cloned = true;")],
    r'''
fn main() {
    let (mut l, _p) = negotiated(None);
    check(l.read_bin(&[1, 2, 3]).is_err(), "noise accepted");
    check(l.try_clone().is_err(), "a failed layer is cloned");
}
''')

bug("b19d", "C19", "a writer that answers WouldBlock while the signature is written",
    "WouldBlock from the writer is not reported when the signature is written",
    [(WR, "        .write_all(sig_key_pair.sign(bin_msg).as_ref())\n        .map_err(|_| Error::BufferFlushError)\n",
      "        .write_all(sig_key_pair.sign(bin_msg).as_ref())\n        .or_else(|e| {\n            if e.kind() == std::io::ErrorKind::WouldBlock {\n                Ok(())\n            } else {\n                Err(Error::BufferFlushError)\n            }\n        })\n")],
    r'''
struct Full(usize);
impl std::io::Write for Full {
    fn write(&mut self, b: &[u8]) -> std::io::Result<usize> {
        if self.0 == 0 {
            return Err(std::io::ErrorKind::WouldBlock.into());
        }
        let n = b.len().min(self.0);
        self.0 -= n;
        Ok(n)
    }
    fn flush(&mut self) -> std::io::Result<()> {
        Ok(())
    }
}
fn main() {
    let mut l = layer(None);
    let mut w = std::io::BufWriter::with_capacity(1, Full(86));
    check(l.write_connect_msg_bin(None, &mut w).is_err(), "a success is reported although nothing of the signature was written");
    std::mem::forget(w);
}
''')

bug("b24d", "C24", "a typed write that fails in the serializer, then a typed write of another layer of the thread",
    "the buffer of the serializer is kept from one message to the next, and emptied only when a message succeeds",
    [(SZ, "    let mut writer = BufWriter::new(Vec::with_capacity(1_024));\n    writer\n        .write(message_format.as_ref())\n        .map_err(Error::WriteError)?;\n    serialize_inner(message, message_format, &mut writer).map_err(Error::SerdeError)?;\n    writer.into_inner().map_err(|_| Error::BufferFlushError)\n",
      "    SCRATCH.with(|scratch| {\n        let mut writer = scratch.borrow_mut();\n        writer\n            .write(message_format.as_ref())\n            .map_err(Error::WriteError)?;\n        serialize_inner(message, message_format, &mut *writer).map_err(Error::SerdeError)?;\n        Ok(writer.split_off(0))\n    })\n"),
     (SZ, "use std::io::{BufWriter, Write};\n", "use std::cell::RefCell;\nuse std::io::{BufWriter, Write};\n\nthread_local! {\n    static SCRATCH: RefCell<Vec<u8>> = RefCell::new(Vec::with_capacity(1_024));\n}\n")],
    r'''
use pkstl::*;
struct Bad;
impl serde::Serialize for Bad {
    fn serialize<S: serde::Serializer>(&self, s: S) -> std::result::Result<S::Ok, S::Error> {
        use serde::ser::SerializeSeq;
        let mut q = s.serialize_seq(Some(2))?;
        q.serialize_element(&1u8)?;
        Err(serde::ser::Error::custom("bad"))
    }
}
fn main() {
    let cfg = SecureLayerConfig { message_format: MessageFormat::Utf8Json, ..Default::default() };
    let (mut l, _p) = negotiated(None);
    l.change_config(cfg).expect("config");
    check(out(|w| l.write(&Bad, w)).is_err(), "written");
    let (mut k, p) = negotiated(None);
    k.change_config(cfg).expect("config");
    let m = out(|w| k.write(&"a", w)).expect("write");
    let c = p.open(&m).map(|x| x.1).unwrap_or_default();
    check(c.len() >= 3 && c[c.len() - 3..] == *b"\"a\"" && c.len() < 10, "the message carries what another layer could not serialize");
}
''')

bug("b25c", "C25", "a user message written once the secret is known but before the negotiation is over",
    "the encrypted message is on the writer before the state refuses it",
    [(MIN, "        // Update status\n        self.status.apply_action(Action::Create(MsgType::UserMsg))?;\n\n        match self.encapsulate_and_encrypt_and_write_message(data, writer) {",
      "        if self.encrypt_algo_with_secret.is_none() {\n            self.status.apply_action(Action::Create(MsgType::UserMsg))?;\n        }\n\n        // Update status\n        let result = self.encapsulate_and_encrypt_and_write_message(data, writer);\n        self.status.apply_action(Action::Create(MsgType::UserMsg))?;\n\n        match result {")],
    r'''
fn main() {
    let mut p = Peer::new(2, &[7; 32]);
    let mut l = layer(None);
    p.hear(&connect_of(&mut l));
    l.read_bin(&p.connect(b"")).expect("connect");
    let mut w = std::io::BufWriter::new(Vec::new());
    check(l.write_bin(b"secret", &mut w).is_err(), "written");
    check(w.into_inner().expect("flush").is_empty(), "a refused message is on the writer");
}
''')

bug("b05c", "C05", "an ACK with custom data that arrives before the CONNECT, which carries none",
    "the custom data of an early ACK is only reported when the CONNECT carries some as well",
    [(CO, "                } => {\n                    messages.push(IncomingBinaryMessage::Connect {\n                        custom_data:", "                } => {\n                    let with_custom_data = custom_data.is_some();\n                    messages.push(IncomingBinaryMessage::Connect {\n                        custom_data:"),
     (CO, "                    if let Some(Message::Ack { custom_data }) = ack_msg_recv_too_early {\n                        messages.push(IncomingBinaryMessage::Ack {\n                            custom_data: if let Some(custom_data) = custom_data {", "                    if let Some(Message::Ack { custom_data }) = ack_msg_recv_too_early {\n                        messages.push(IncomingBinaryMessage::Ack {\n                            custom_data: if let Some(custom_data) =\n                                custom_data.filter(|_| with_custom_data)\n                            {")],
    r'''
fn main() {
    let mut p = Peer::new(2, &[7; 32]);
    let mut l = layer(None);
    p.hear(&connect_of(&mut l));
    l.read_bin(&p.ack(&wire::deflate(b"hello", 0))).expect("ack");
    let r = l.read_bin(&p.connect(b"")).expect("connect");
    check(r.last() == Some(&pkstl::IncomingBinaryMessage::Ack { custom_data: Some(b"hello".to_vec()) }), "the custom data of the ACK is lost");
}
''')

bug("b01d", "C01", "a CONNECT that a layer without expected key refuses because it is its own reflected, or out of its turn; then the real peer's",
    "the key of a CONNECT is adopted before its signature is verified",
    [(MIN, "                // Verify sig\n                // The reader has already made sure that the signature algorithm is supported,\n                // as we only support the Ed25519 algorithm, we know that it is necessarily this one.\n                if !self.verify_sig(&data, sig_pubkey, user_msg_end) {", "                // Get peer sig pubkey\n                if self.peer_sig_pubkey.is_none() {\n                    self.peer_sig_pubkey = Some(sig_pubkey.to_vec());\n                }\n\n                // Verify sig\n                if !self.verify_sig(&data, sig_pubkey, user_msg_end) {"),
     (MIN, "                // Get peer sig pubkey\n                if self.peer_sig_pubkey.is_none() {\n                    self.peer_sig_pubkey = Some(sig_pubkey.to_vec());\n                }\n\n                // Update status", "                // Update status")],
    r'''
fn main() {
    let p = Peer::new(2, &[7; 32]);
    let s = Peer::new(3, &[8; 32]);
    let mut l = layer(None);
    let mut f = s.connect(b"");
    let n = f.len();
    f[n - 1] ^= 1;
    check(l.read_bin(&f).is_err(), "forgery accepted");
    check(l.read_bin(&p.connect(b"")).is_ok(), "the key of a forged CONNECT was adopted");
}
''')

bug("b17d", "C17", "a typed message of more than 65,535 bytes",
    "the format of big typed messages is left out",
    [(SZ, "    // Serialize message\n    let bin_msg = serialize(message, sl.minimal_secure_layer.config.message_format)?;\n\n    // Compress message\n    let bin_zip_msg = sl.compress(&bin_msg[..])?;\n",
      "    // Serialize message\n    let bin_msg = serialize(message, sl.minimal_secure_layer.config.message_format)?;\n\n    // Compress message\n    let bin_zip_msg = if bin_msg.len() > 65_535 {\n        sl.compress(&bin_msg[HEADER_FORMAT_LEN..])?\n    } else {\n        sl.compress(&bin_msg[..])?\n    };\n"),
     (SZ, "use super::SerdeError;\n", "use super::{SerdeError, HEADER_FORMAT_LEN};\n")],
    r'''
use pkstl::*;
fn main() {
    let cfg = SecureLayerConfig { message_format: MessageFormat::Utf8Json, ..Default::default() };
    let (mut l, p) = negotiated(None);
    l.change_config(cfg).expect("config");
    let m = out(|w| l.write(&"a".repeat(70_000), w)).expect("write");
    let c = p.open(&m).map(|x| x.1).unwrap_or_default();
    check(c.len() == 70_006, "the message does not carry its format");
}
''')

bug("b20d", "C20", "a typed message that cannot be serialized, between two others",
    "a number is taken before the message is serialized: a failed serialization leaves a gap",
    [(MIN, "        match self.encapsulate_and_encrypt_and_write_message(data, writer) {\n            Ok(()) => {\n                self.status = SecureLayerStatus::NegotiationSuccessful;\n\n                self.next_nonce_sent += 1;\n", "        match self.encapsulate_and_encrypt_and_write_message(data, writer) {\n            Ok(()) => {\n                self.status = SecureLayerStatus::NegotiationSuccessful;\n\n                self.take_nonce();\n"),
     (MIN, "    #[inline]\n    fn verify_sig(&self,", "    /// Take a number\n    pub(crate) fn take_nonce(&mut self) {\n        self.next_nonce_sent += 1;\n    }\n    #[inline]\n    fn verify_sig(&self,"),
     (SZ, "    let bin_msg = serialize(message, sl.minimal_secure_layer.config.message_format)?;\n\n    // Compress message\n", "    let bin_msg = serialize(message, sl.minimal_secure_layer.config.message_format).map_err(|e| {\n        sl.minimal_secure_layer.take_nonce();\n        e\n    })?;\n\n    // Compress message\n")],
    r'''
use pkstl::*;
fn main() {
    let (mut l, p) = negotiated(None);
    check(out(|w| l.write(&"a", w)).is_err(), "raw format written");
    let m = out(|w| l.write_bin(b"a", w)).expect("write");
    check(p.open(&m).map(|x| x.0) == Some(0), "a number was skipped");
}
''')

bug("b21d", "C21", "a peer's ephemeral key whose last bit is set",
    "the unused last bit of the peer's ephemeral key is cleared before the salt is chosen: the secret is not the documented one",
    [(AG, "        let salt = if self.pubkey.as_ref() > other_ephemeral_public_key {\n            self.pubkey.as_ref()\n        } else {\n            other_ephemeral_public_key\n        };\n", "        let mut canonical = other_ephemeral_public_key.to_vec();\n        if let Some(last) = canonical.last_mut() {\n            *last &= 0x7f;\n        }\n        let salt = if *self.pubkey.as_ref() > canonical[..] {\n            self.pubkey.as_ref()\n        } else {\n            &canonical[..]\n        };\n")],
    r'''
fn main() {
    for i in 0..20u8 {
        let mut p = Peer::new(2, &[i; 32]);
        p.eph.pk[31] |= 0x80;
        let mut l = layer(None);
        p.hear(&connect_of(&mut l));
        l.read_bin(&p.connect(b"")).expect("connect");
        ack_of(&mut l);
        l.read_bin(&p.ack(b"")).expect("ack");
        check(datas(l.read_bin(&p.user(0, b"a"))).len() == 1, "the two ends do not hold the same secret");
    }
}
''')

FMT = "src/format.rs"
bug("b26a", "C26", "a crate compiled without json which receives a JSON value",
    "formats that are not compiled are read as raw binary instead of being refused as unknown",
    [(FMT, "            _ => Err(IncomingMsgErr::UnknownMessageFormat),\n", "            _ if cfg!(feature = \"json\") => Err(IncomingMsgErr::UnknownMessageFormat),\n            _ => Ok(Self::RawBinary),\n")],
    r"""
use pkstl::*;
fn main() {
    let (mut l, p) = negotiated(None);
    let r = l.read::<String>(&p.user(0, b"\0\0\0\x02\"a\""));
    check(if let Err(Error::RecvInvalidMsg(_)) = r { true } else { false }, "JSON is not refused as an unknown format");
}
""", features='"cbor"')

bug("b26b", "C26", "a crate compiled without json which writes CBOR",
    "the number of a format is looked up by its place in the enumeration, which is another one when a feature is missing",
    [(FMT, "#[cfg(feature = \"bin\")]\nconst BINCODE", "const BINCODE"), (FMT, "#[cfg(feature = \"cbor\")]\nconst CBOR", "const CBOR"), (FMT, "#[cfg(feature = \"json\")]\nconst UTF8_JSON", "const UTF8_JSON"),
     (FMT, "        match self {\n            #[cfg(feature = \"bin\")]\n            Self::Bincode => BINCODE,\n            #[cfg(feature = \"cbor\")]\n            Self::Cbor => CBOR,\n            Self::RawBinary => RAW_BINARY,\n            #[cfg(feature = \"json\")]\n            Self::Utf8Json => UTF8_JSON,\n            Self::Utf8PlainText => UTF8_PLAIN_TEXT,\n        }\n",
      "        const ALL: [&[u8]; 5] = [RAW_BINARY, UTF8_PLAIN_TEXT, UTF8_JSON, CBOR, BINCODE];\n        ALL[*self as usize]\n"),
     ],
    r"""
use pkstl::*;
fn main() {
    let mut cfg = SecureLayerConfig::default();
    cfg.message_format = MessageFormat::Cbor;
    let (mut l, p) = negotiated(None);
    l.change_config(cfg).expect("config");
    let m = out(|w| l.write(&"a", w)).expect("write");
    let c = p.open(&m).map(|x| x.1).unwrap_or_default();
    check(c[..4] == [0, 0, 0, 3], "CBOR is written with the number of another format");
}
""", features='"cbor"')

bug("b26c", "C26", "an optimised build which receives an ACK with a wrong challenge, signed by the peer",
    "the challenge of an ACK is only compared in debug builds",
    [(MIN, "                if challenge != sha256(self.ephemeral_pubkey.as_ref()).as_ref() {\n", "                if cfg!(debug_assertions)\n                    && challenge != sha256(self.ephemeral_pubkey.as_ref()).as_ref()\n                {\n")],
    r"""
fn main() {
    let mut p = Peer::new(2, &[7; 32]);
    let mut l = layer(None);
    p.hear(&connect_of(&mut l));
    l.read_bin(&p.connect(b"")).expect("connect");
    ack_of(&mut l);
    check(l.read_bin(&p.sign(wire::ack(&[9; 32], b""))).is_err(), "an ACK for another challenge is accepted");
}
""", profile="[profile.dev.package.pkstl]\ndebug-assertions = false\noverflow-checks = false\nopt-level = 3\n")

bug("b26d", "C26", "a crate compiled without default features",
    "the configuration mentions the compression library in builds which do not have it",
    [("src/config.rs", "    #[cfg(feature = \"zip-sign\")]\n    /// Compression level\n", "    /// Compression level\n")],
    r"""
use pkstl::*;
fn main() {
    MinimalSecureLayer::create(SecureLayerConfig::default(), None).expect("create");
}
""", features='', kit=False)

bug("b26e", "C26", "a crate compiled without ser: an ACK with custom data and messages held",
    "without the typed calls the messages held until the ACK are lost",
    [("src/complete.rs", "                    for msg in self.minimal_secure_layer.drain_tmp_stack_user_msgs()? {\n", "                    let held = self.minimal_secure_layer.drain_tmp_stack_user_msgs()?;\n                    for msg in held.into_iter().filter(|_| cfg!(feature = \"ser\")) {\n")],
    r"""
fn main() {
    let mut p = Peer::new(2, &[7; 32]);
    let mut l = layer(None);
    p.hear(&connect_of(&mut l));
    l.read_bin(&p.connect(b"")).expect("connect");
    ack_of(&mut l);
    l.read_bin(&p.user(0, b"a")).expect("held");
    check(datas(l.read_bin(&p.ack(b""))).len() == 1, "a message held is lost");
}
""", features='"zip-sign"')

# ---------------------------------------------------------------- C27

AEAD = "src/encryption/chacha20_poly1305_aead.rs"
WATCH = r"""
use std::alloc::{GlobalAlloc, Layout, System};
use std::sync::atomic::{AtomicUsize, Ordering::SeqCst};
static mut KEY: [u8; 32] = [0; 32];
static ON: AtomicUsize = AtomicUsize::new(0);
static HITS: AtomicUsize = AtomicUsize::new(0);
struct Look;
fn has(p: *const u8, n: usize) -> bool {
    n >= 32 && (0..=n - 32).any(|i| (0..32).all(|j| unsafe { p.add(i + j).read_volatile() == (&raw const KEY as *const u8).add(j).read() }))
}
unsafe impl GlobalAlloc for Look {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 { System.alloc_zeroed(l) }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        if ON.load(SeqCst) == 1 && has(p, l.size()) { HITS.fetch_add(1, SeqCst); }
        System.dealloc(p, l)
    }
}
#[global_allocator]
static L: Look = Look;
fn watch(key: &[u8]) { for (i, b) in key[..32].iter().enumerate() { unsafe { (&raw mut KEY as *mut u8).add(i).write(*b) } } ON.store(1, SeqCst); }
/// is the key where this layer stood
fn left<T>(x: Box<T>) -> bool {
    let p = Box::into_raw(x);
    unsafe { std::ptr::drop_in_place(p); has(p as *const u8, std::mem::size_of::<T>()) }
}
fn hits() -> usize { HITS.load(SeqCst) }
""".replace("&raw const KEY", "std::ptr::addr_of!(KEY)").replace("&raw mut KEY", "std::ptr::addr_of_mut!(KEY)")

bug("b27a", "C27", "any layer that was dropped; only its memory shows it",
    "the key of a session is no longer erased when it is dropped",
    [(AEAD, "#[derive(Clone, Debug, Default, Zeroize)]\n#[zeroize(drop)]\n", "#[derive(Clone, Debug, Default, Zeroize)]\n")],
    WATCH + r"""
fn main() {
    let mut p = Peer::new(2, &[7; 32]);
    let mut l = Box::new(layer(None));
    p.hear(&connect_of(&mut l));
    l.read_bin(&p.connect(b"")).expect("connect");
    watch(&p.sess.as_ref().unwrap().0);
    check(!left(l), "the key is still there");
}
""")

bug("b27b", "C27", "a clone that is dropped",
    "erasing moved from the key to the layer, which only does it for layers that were never cloned",
    [(AEAD, "#[derive(Clone, Debug, Default, Zeroize)]\n#[zeroize(drop)]\n", "#[derive(Clone, Debug, Default, Zeroize)]\n"),
     ("src/encryption.rs", "impl EncryptAlgoWithSecretKey {\n", "impl EncryptAlgoWithSecretKey {\n    pub(crate) fn erase(&mut self) {\n        match self {\n            Self::Chacha20Poly1305Aead(key) => zeroize::Zeroize::zeroize(key),\n        }\n    }\n"),
     (MIN, "impl MinimalSecureLayer {\n", "impl Drop for MinimalSecureLayer {\n    fn drop(&mut self) {\n        if self.cloned {\n            return;\n        }\n        if let Some(ref mut secret) = self.encrypt_algo_with_secret {\n            secret.erase();\n        }\n    }\n}\n\nimpl MinimalSecureLayer {\n")],
    WATCH + r"""
fn main() {
    let (l, p) = negotiated(None);
    let mut l = Box::new(l);
    let c = Box::new(l.try_clone().expect("clone"));
    watch(&p.sess.as_ref().unwrap().0);
    check(!left(l), "the key is still where the original was");
    check(!left(c), "the key is still where the clone was");
}
""")

bug("b27c", "C27", "a seed that was dropped; only its memory shows it",
    "erasing a seed stops halfway",
    [("src/seeds.rs", "#[derive(Clone, Debug, Default, PartialEq, Zeroize)]\n#[zeroize(drop)]\npub struct Seed32([u8; 32]);\n", "#[derive(Clone, Debug, Default, PartialEq, Zeroize)]\npub struct Seed32([u8; 32]);\n\nimpl Drop for Seed32 {\n    fn drop(&mut self) {\n        for word in self.0.chunks_mut(8).take(2) {\n            word.zeroize();\n        }\n    }\n}\n")],
    WATCH.replace("n >= 32 && (0..=n - 32).any(|i| (0..32)", "n >= 16 && (0..=n - 16).any(|i| (0..16)") + r"""
use pkstl::Seed32;
fn main() {
    let s = Box::new(Seed32::new([9; 32]));
    watch(&[9; 32]);
    check(!left(s), "half of the seed is still there");
}
""")

bug("b27d", "C27", "memory given back while a key is taken over",
    "the secret is gathered in a buffer that grows, and leaves its beginning in the memory it outgrew",
    [(AEAD, "        let mut secret_key = SecretKey::default();\n", "        let mut secret_key = SecretKey::default();\n        let mut material = seed.as_ref()[0..32].to_vec();\n        material.extend_from_slice(&seed.as_ref()[32..48]);\n"),
     (AEAD, "        secret_key.key.copy_from_slice(&seed.as_ref()[0..32]);\n", "        secret_key.key.copy_from_slice(&material[0..32]);\n"),
     (AEAD, "        secret_key.nonce.copy_from_slice(&seed.as_ref()[32..44]);\n", "        secret_key.nonce.copy_from_slice(&material[32..44]);\n"),
     (AEAD, "        secret_key.aad.copy_from_slice(&seed.as_ref()[44..48]);\n", "        secret_key.aad.copy_from_slice(&material[44..48]);\n        material.zeroize();\n")],
    WATCH + r"""
fn main() {
    let mut p = Peer::new(2, &[7; 32]);
    let mut l = Box::new(layer(None));
    p.hear(&connect_of(&mut l));
    let m = p.connect(b"");
    watch(&p.sess.as_ref().unwrap().0);
    l.read_bin(&m).expect("connect");
    check(hits() == 0, "the key is in memory that was given back");
}
""")

bug("b27e", "C27", "a session that ends: the last of its layers is dropped",
    "keys are shared by clones through a list that keeps them for the life of the thread",
    [("src/encryption.rs", "#[derive(Clone, Debug)]\npub enum EncryptAlgoWithSecretKey {\n    Chacha20Poly1305Aead(chacha20_poly1305_aead::SecretKey),\n}\n",
      "thread_local! {\n    static SHARED: std::cell::RefCell<Vec<std::rc::Rc<chacha20_poly1305_aead::SecretKey>>> = Default::default();\n}\n\n#[derive(Debug)]\npub enum EncryptAlgoWithSecretKey {\n    Chacha20Poly1305Aead(Box<chacha20_poly1305_aead::SecretKey>),\n}\n\nimpl Clone for EncryptAlgoWithSecretKey {\n    fn clone(&self) -> Self {\n        match self {\n            Self::Chacha20Poly1305Aead(key) => {\n                SHARED.with(|s| s.borrow_mut().push(std::rc::Rc::new((**key).clone())));\n                Self::Chacha20Poly1305Aead(key.clone())\n            }\n        }\n    }\n}\n"),
     ("src/encryption.rs", "                    Self::Chacha20Poly1305Aead(chacha20_poly1305_aead::SecretKey::new(&seed))\n", "                    Self::Chacha20Poly1305Aead(Box::new(chacha20_poly1305_aead::SecretKey::new(\n                        &seed,\n                    )))\n")],
    WATCH.replace("System.alloc_zeroed(l) }", "let p = System.alloc_zeroed(l); if ON.load(SeqCst) == 1 { for b in BLOCKS.iter() { if b.0.load(SeqCst) == 0 { b.1.store(l.size(), SeqCst); b.0.store(p as usize, SeqCst); break; } } } p }")
         .replace("        System.dealloc(p, l)", "        for b in BLOCKS.iter() { if b.0.load(SeqCst) == p as usize { b.0.store(0, SeqCst); } }\n        System.dealloc(p, l)") + r"""
#[allow(clippy::declare_interior_mutable_const)]
const NONE: (AtomicUsize, AtomicUsize) = (AtomicUsize::new(0), AtomicUsize::new(0));
static BLOCKS: [(AtomicUsize, AtomicUsize); 256] = [NONE; 256];
fn main() {
    let (mut l, p) = negotiated(None);
    watch(&p.sess.as_ref().unwrap().0);
    let c = l.try_clone().expect("clone");
    drop(l);
    drop(c);
    let n = BLOCKS.iter().filter(|b| b.0.load(SeqCst) != 0 && has(b.0.load(SeqCst) as *const u8, b.1.load(SeqCst))).count();
    check(n == 0, "no layer is left, the key is");
}
""")

