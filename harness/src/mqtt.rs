//! Independent MQTT 5 reference codec: strict decoder for what the client writes,
//! classifier for what a server may send, and builders for server packets.

#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub enum RProp {
    Pfi(u8),
    Expiry(u32),
    Resp(String),
    Corr(Vec<u8>),
    User(String, String),
    Reason(String),
    /// legal for the packet, but outside the set the library knows
    Other(u8),
}

#[derive(Clone, Debug, PartialEq, Eq)]
pub enum InPkt {
    Connack { sp: bool, reason: u8, props: Vec<RProp> },
    Publish { dup: bool, qos: u8, retain: bool, topic: String, pid: Option<u16>, props: Vec<RProp>, payload: Vec<u8> },
    Puback { pid: u16, reason: u8 },
    Suback { pid: u16, reason: u8, props: Vec<RProp> },
    Unsuback { pid: u16, reason: u8, props: Vec<RProp> },
    Pingresp,
    Disconnect { reason: u8 },
}

#[derive(Clone, Debug, PartialEq, Eq)]
pub struct Frame {
    pub len: usize,
    pub ty: u8,
    /// meaning if accepted; None: must be rejected (unless `any`)
    pub pkt: Option<InPkt>,
    /// rejecting it with an error is acceptable
    pub reject_ok: bool,
    /// anything but a panic or a hang is acceptable
    pub any: bool,
    pub why: &'static str,
    /// legal property ids the library does not know, in this packet
    pub unsupported: Vec<u8>,
}

#[derive(Clone, Debug, PartialEq, Eq)]
pub enum Cls {
    /// no complete frame yet; `early`: it is already certain that it must be rejected
    NeedMore { early: bool },
    /// not a frame at all
    Bad(&'static str),
    Frame(Frame),
}

pub fn vbi(mut n: usize) -> Vec<u8> {
    let mut v = vec![];
    loop {
        let b = (n % 128) as u8;
        n /= 128;
        if n > 0 {
            v.push(b | 128)
        } else {
            v.push(b);
            return v;
        }
    }
}

/// Ok((value, len, minimal))
pub fn get_vbi(b: &[u8]) -> Result<(usize, usize, bool), bool> {
    let mut v = 0usize;
    for i in 0..4 {
        match b.get(i) {
            None => return Err(false),
            Some(x) => {
                v |= ((x & 127) as usize) << (7 * i);
                if x & 128 == 0 {
                    return Ok((v, i + 1, i == 0 || *x != 0));
                }
            }
        }
    }
    Err(true)
}

struct Cur<'a> {
    b: &'a [u8],
    p: usize,
}
type R<T> = Result<T, &'static str>;
impl<'a> Cur<'a> {
    fn new(b: &'a [u8]) -> Self {
        Cur { b, p: 0 }
    }
    fn left(&self) -> usize {
        self.b.len() - self.p
    }
    fn take(&mut self, n: usize) -> R<&'a [u8]> {
        if self.left() < n {
            return Err("field overruns the packet");
        }
        let r = &self.b[self.p..self.p + n];
        self.p += n;
        Ok(r)
    }
    fn u8(&mut self) -> R<u8> {
        Ok(self.take(1)?[0])
    }
    fn u16(&mut self) -> R<u16> {
        let b = self.take(2)?;
        Ok(u16::from_be_bytes([b[0], b[1]]))
    }
    fn u32(&mut self) -> R<u32> {
        let b = self.take(4)?;
        Ok(u32::from_be_bytes([b[0], b[1], b[2], b[3]]))
    }
    fn bin(&mut self) -> R<&'a [u8]> {
        let n = self.u16()? as usize;
        self.take(n)
    }
    fn str(&mut self) -> R<String> {
        std::str::from_utf8(self.bin()?).map(|s| s.to_owned()).map_err(|_| "invalid UTF-8")
    }
    fn vbi(&mut self) -> R<(usize, bool)> {
        match get_vbi(&self.b[self.p..]) {
            Ok((v, n, min)) => {
                self.p += n;
                Ok((v, min))
            }
            Err(true) => Err("length prefix longer than four bytes"),
            Err(false) => Err("field overruns the packet"),
        }
    }
    fn pid(&mut self) -> R<u16> {
        match self.u16()? {
            0 => Err("packet identifier zero"),
            n => Ok(n),
        }
    }
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Known {
    Publish,
    Ack,
}

#[derive(Default)]
struct Lax {
    lax: bool,
    unsupported: Vec<u8>,
}

fn legal(ty: u8, id: u8) -> bool {
    match ty {
        2 => matches!(id, 0x11 | 0x21 | 0x24 | 0x25 | 0x27 | 0x12 | 0x22 | 0x1F | 0x26 | 0x28 | 0x29 | 0x2A | 0x13 | 0x1A | 0x1C | 0x15 | 0x16),
        3 => matches!(id, 0x01 | 0x02 | 0x23 | 0x08 | 0x09 | 0x26 | 0x0B | 0x03),
        4 | 9 | 11 => matches!(id, 0x1F | 0x26),
        14 => matches!(id, 0x1F | 0x26 | 0x1C | 0x11),
        _ => false,
    }
}

fn props(ty: u8, c: &mut Cur, lax: &mut Lax) -> R<Vec<RProp>> {
    let (n, min) = c.vbi()?;
    lax.lax |= !min;
    let sect = c.take(n)?;
    let mut c = Cur::new(sect);
    let mut out: Vec<RProp> = vec![];
    let mut seen: Vec<u8> = vec![];
    while c.left() > 0 {
        let id = c.u8()?;
        if !legal(ty, id) {
            return Err("unknown property");
        }
        if id != 0x26 {
            lax.lax |= seen.contains(&id);
            seen.push(id);
        }
        out.push(match id {
            0x01 => {
                let v = c.u8()?;
                lax.lax |= v > 1;
                RProp::Pfi(v)
            }
            0x02 => RProp::Expiry(c.u32()?),
            0x08 => RProp::Resp(c.str()?),
            0x09 => RProp::Corr(c.bin()?.to_vec()),
            0x26 => {
                let k = c.str()?;
                RProp::User(k, c.str()?)
            }
            0x1F => RProp::Reason(c.str()?),
            id => {
                match id {
                    0x11 | 0x27 => {
                        c.u32()?;
                    }
                    0x21 | 0x22 | 0x13 | 0x23 => {
                        c.u16()?;
                    }
                    0x24 | 0x25 | 0x28 | 0x29 | 0x2A => {
                        c.u8()?;
                    }
                    0x16 => {
                        c.bin()?;
                    }
                    0x0B => {
                        c.vbi()?;
                    }
                    _ => {
                        c.str()?;
                    }
                }
                lax.unsupported.push(id);
                RProp::Other(id)
            }
        });
    }
    Ok(out)
}

pub const CONNACK_REASONS: &[(u8, &str)] = &[
    (0, "Success"), (128, "UnspecifiedError"), (129, "MalformedPacket"), (130, "ProtocolError"),
    (131, "ImplementationSpecificError"), (132, "UnsupportedProtocolVersion"), (133, "ClientIdentifierNotValid"),
    (134, "BadUserNameOrPassword"), (135, "NotAuthorized"), (136, "ServerUnavailable"), (137, "ServerBusy"),
    (138, "Banned"), (140, "BadAuthenticationMethod"), (144, "TopicNameInvalid"), (149, "PacketTooLarge"),
    (151, "QuotaExceeded"), (153, "PayloadFormatInvalid"), (154, "RetainNotSupported"), (155, "QoSNotSupported"),
    (156, "UseAnotherServer"), (157, "ServerMoved"), (159, "ConnectionRateExceeded"),
];
pub const SUBACK_REASONS: &[(u8, &str)] = &[
    (0, "QoS0"), (1, "QoS1"), (2, "QoS2"), (128, "UnspecifiedError"), (131, "ImplementationSpecificError"),
    (135, "NotAuthorized"), (143, "TopicFilterInvalid"), (145, "PacketIdentifierInUse"), (151, "QuotaExceeded"),
    (158, "SharedSubsNotSupported"), (161, "SubIdsNotSupported"), (162, "WildcardSubsNotSupported"),
];
pub const UNSUBACK_REASONS: &[(u8, &str)] = &[
    (0, "Success"), (17, "NoSubscriptionExisted"), (128, "UnspecifiedError"), (131, "ImplementationSpecificError"),
    (135, "NotAuthorized"), (143, "TopicFilterInvalid"), (145, "PacketIdentifierInUse"),
];
pub const PUBACK_REASONS: &[u8] = &[0, 16, 128, 131, 135, 144, 145, 151, 153];
/// name fragments as printed by the library (spelling tolerant comparison elsewhere)
pub const DISCONNECT_REASONS: &[(u8, &str)] = &[
    (0, "Normal"), (4, "DisconnectWithWill"), (128, "UnspecifiedError"), (129, "MalformedPacket"),
    (130, "ProtocolError"), (131, "ImplementationSpecificError"), (135, "NotAuthorized"), (137, "ServerBusy"),
    (139, "ServerShuttingDown"), (141, "KeepAliveTimeout"), (142, "SessionTakenOver"), (143, "TopicFilterInvalid"),
    (144, "TopicNameInvalid"), (147, "ReceiveMaximumExceeded"), (148, "TopicAliasInvalid"), (149, "PacketTooLarge"),
    (150, "MessageRateTooHigh"), (151, "QuotaExceeded"), (152, "AdministrativeAction"), (153, "PayloadFormatInvalid"),
    (154, "RetainNotSupported"), (155, "QoSNotSupported"), (156, "UseAnotherServer"), (157, "ServerMoved"),
    (158, "SharedSubsNotSupported"), (159, "ConnectionRateExceeded"), (160, "MaximumConnectTime"),
    (161, "IdsNotSupported"), (162, "WildcardSubsNotSupported"),
];

fn known(t: &[(u8, &str)], r: u8) -> R<u8> {
    if t.iter().any(|x| x.0 == r) {
        Ok(r)
    } else {
        Err("unknown reason code")
    }
}

fn body(ty: u8, flags: u8, b: &[u8], lax: &mut Lax) -> R<InPkt> {
    let mut c = Cur::new(b);
    if ty != 3 && flags != 0 {
        lax.lax = true;
    }
    let p = match ty {
        2 => {
            let sp = match c.u8()? {
                0 => false,
                1 => true,
                _ => return Err("invalid connack flags"),
            };
            let reason = known(CONNACK_REASONS, c.u8()?)?;
            lax.lax |= sp; // a clean start never has a session present
            let props = props(ty, &mut c, lax)?;
            InPkt::Connack { sp, reason, props }
        }
        3 => {
            let qos = (flags >> 1) & 3;
            if qos == 3 {
                return Err("QoS 3");
            }
            let dup = flags & 8 != 0;
            lax.lax |= dup && qos == 0;
            let topic = c.str()?;
            lax.lax |= topic.is_empty() || topic.contains(['#', '+', '\0']);
            let pid = if qos > 0 { Some(c.pid()?) } else { None };
            let props = props(ty, &mut c, lax)?;
            let payload = c.take(c.left())?.to_vec();
            if props.contains(&RProp::Pfi(1)) && std::str::from_utf8(&payload).is_err() {
                return Err("payload is not the UTF-8 it is declared to be");
            }
            InPkt::Publish { dup, qos, retain: flags & 1 != 0, topic, pid, props, payload }
        }
        4 => {
            let pid = c.pid()?;
            let mut reason = 0;
            if c.left() > 0 {
                reason = c.u8()?;
                if !PUBACK_REASONS.contains(&reason) {
                    return Err("unknown reason code");
                }
            }
            if c.left() > 0 {
                props(ty, &mut c, lax)?;
            }
            InPkt::Puback { pid, reason }
        }
        9 | 11 => {
            let pid = c.pid()?;
            let props = props(ty, &mut c, lax)?;
            let t = if ty == 9 { SUBACK_REASONS } else { UNSUBACK_REASONS };
            let reason = known(t, c.u8()?)?;
            if ty == 9 {
                InPkt::Suback { pid, reason, props }
            } else {
                InPkt::Unsuback { pid, reason, props }
            }
        }
        13 => InPkt::Pingresp,
        14 => {
            let mut reason = 0;
            if c.left() > 0 {
                reason = known(DISCONNECT_REASONS, c.u8()?)?;
            }
            lax.lax |= reason == 4;
            if c.left() > 0 {
                for p in props(ty, &mut c, lax)? {
                    lax.lax |= p == RProp::Other(0x11);
                }
            }
            InPkt::Disconnect { reason }
        }
        _ => unreachable!(),
    };
    lax.lax |= c.left() > 0;
    Ok(p)
}

/// What the first bytes of `b` are, for a client in an open session or waiting for CONNACK.
pub fn classify(b: &[u8]) -> Cls {
    let bad_ty = |t: u8| matches!(t, 0 | 1 | 8 | 10 | 12);
    let Some(h) = b.first() else { return Cls::NeedMore { early: false } };
    let (ty, flags) = (h >> 4, h & 15);
    let early = bad_ty(ty) || matches!(ty, 5 | 6 | 7 | 15) || (ty == 3 && (flags >> 1) & 3 >= 2) || (ty != 3 && flags != 0);
    if ty == 0 {
        return if b.len() >= 2 { Cls::Bad("packet type zero") } else { Cls::NeedMore { early: true } };
    }
    let (rem, n, min) = match get_vbi(&b[1..]) {
        Ok(x) => x,
        Err(true) => return if b.len() >= 6 { Cls::Bad("length prefix longer than four bytes") } else { Cls::NeedMore { early: true } },
        Err(false) => return Cls::NeedMore { early },
    };
    let len = 1 + n + rem;
    if b.len() < len {
        return Cls::NeedMore { early: early || !min };
    }
    let mut f = Frame { len, ty, pkt: None, reject_ok: true, any: false, why: "", unsupported: vec![] };
    if bad_ty(ty) {
        f.why = "packet type only clients send";
    } else if matches!(ty, 5 | 6 | 7 | 15) {
        f.any = true;
        f.why = "QoS 2 / AUTH packet, not supported";
    } else {
        let mut lax = Lax { lax: !min, unsupported: vec![] };
        match body(ty, flags, &b[1 + n..len], &mut lax) {
            Ok(p) => {
                f.any = matches!(p, InPkt::Publish { qos: 2, .. });
                f.reject_ok = lax.lax || f.any || !lax.unsupported.is_empty();
                f.unsupported = lax.unsupported;
                f.pkt = Some(p);
            }
            Err(e) => f.why = e,
        }
    }
    Cls::Frame(f)
}

// ---------------------------------------------------------------- client packets

#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub enum OutPkt {
    Connect { clean: bool, keep_alive: u16, client_id: String },
    Publish { dup: bool, qos: u8, retain: bool, topic: String, pid: Option<u16>, props: Vec<RProp>, payload: Vec<u8> },
    Subscribe { pid: u16, filters: Vec<(String, u8)> },
    Unsubscribe { pid: u16, filters: Vec<String> },
    Puback { pid: u16, reason: u8 },
    Pingreq,
    Disconnect { reason: u8 },
}

/// Strict decoder; Ok(None): incomplete.
pub fn decode_out(b: &[u8]) -> Result<Option<(OutPkt, usize)>, String> {
    let Some(h) = b.first() else { return Ok(None) };
    let (ty, flags) = (h >> 4, h & 15);
    if !matches!(ty, 1 | 3 | 4 | 8 | 10 | 12 | 14) {
        return Err(format!("client wrote packet of type {ty}"));
    }
    let want = match ty {
        8 | 10 => 2,
        _ => 0,
    };
    if ty != 3 && flags != want {
        return Err(format!("reserved header flags {flags:#x} in packet of type {ty}"));
    }
    let (rem, n, min) = match get_vbi(&b[1..]) {
        Ok(x) => x,
        Err(true) => return Err("remaining length longer than four bytes".into()),
        Err(false) => return Ok(None),
    };
    if !min {
        return Err("remaining length not minimal".into());
    }
    let len = 1 + n + rem;
    if b.len() < len {
        return Ok(None);
    }
    out_body(ty, flags, &b[1 + n..len]).map(|p| Some((p, len))).map_err(|e| format!("packet of type {ty} written by the client is malformed: {e}"))
}

fn strict_props(ty: u8, c: &mut Cur) -> R<Vec<RProp>> {
    let mut lax = Lax::default();
    let at = c.p;
    let (_, min) = c.vbi()?;
    if !min {
        return Err("property length not minimal");
    }
    c.p = at;
    props(ty, c, &mut lax)
}

fn out_body(ty: u8, flags: u8, b: &[u8]) -> R<OutPkt> {
    let mut c = Cur::new(b);
    let p = match ty {
        1 => {
            if c.str()? != "MQTT" || c.u8()? != 5 {
                return Err("not an MQTT 5 CONNECT");
            }
            let fl = c.u8()?;
            if fl & !2 != 0 {
                return Err("CONNECT flags other than clean start");
            }
            let keep_alive = c.u16()?;
            let (pl, min) = c.vbi()?;
            if !min {
                return Err("property length not minimal");
            }
            c.take(pl)?;
            let client_id = c.str()?;
            OutPkt::Connect { clean: fl & 2 != 0, keep_alive, client_id }
        }
        3 => {
            let qos = (flags >> 1) & 3;
            if qos == 3 {
                return Err("QoS 3");
            }
            let topic = c.str()?;
            let pid = if qos > 0 { Some(c.u16()?) } else { None };
            let props = strict_props(3, &mut c)?;
            let payload = c.take(c.left())?.to_vec();
            OutPkt::Publish { dup: flags & 8 != 0, qos, retain: flags & 1 != 0, topic, pid, props, payload }
        }
        4 => {
            let pid = c.u16()?;
            let reason = if c.left() > 0 { c.u8()? } else { 0 };
            if c.left() > 0 {
                strict_props(4, &mut c)?;
            }
            OutPkt::Puback { pid, reason }
        }
        8 => {
            let pid = c.u16()?;
            let (n, _) = c.vbi()?;
            if n != 0 {
                return Err("unexpected SUBSCRIBE properties");
            }
            let mut filters = vec![];
            while c.left() > 0 {
                let t = c.str()?;
                filters.push((t, c.u8()?));
            }
            if filters.is_empty() {
                return Err("no topic filter");
            }
            OutPkt::Subscribe { pid, filters }
        }
        10 => {
            let pid = c.u16()?;
            let (n, _) = c.vbi()?;
            if n != 0 {
                return Err("unexpected UNSUBSCRIBE properties");
            }
            let mut filters = vec![];
            while c.left() > 0 {
                filters.push(c.str()?);
            }
            if filters.is_empty() {
                return Err("no topic filter");
            }
            OutPkt::Unsubscribe { pid, filters }
        }
        12 => OutPkt::Pingreq,
        14 => {
            let reason = if c.left() > 0 { c.u8()? } else { 0 };
            if c.left() > 0 {
                strict_props(14, &mut c)?;
            }
            OutPkt::Disconnect { reason }
        }
        _ => unreachable!(),
    };
    if c.left() > 0 {
        return Err("trailing bytes");
    }
    Ok(p)
}

// ---------------------------------------------------------------- builders

pub fn mstr(s: &[u8]) -> Vec<u8> {
    let mut v = (s.len() as u16).to_be_bytes().to_vec();
    v.extend_from_slice(s);
    v
}

pub fn enc_prop(p: &RProp) -> Vec<u8> {
    let mut v = vec![];
    match p {
        RProp::Pfi(x) => v.extend([0x01, *x]),
        RProp::Expiry(x) => {
            v.push(2);
            v.extend(x.to_be_bytes())
        }
        RProp::Resp(s) => {
            v.push(8);
            v.extend(mstr(s.as_bytes()))
        }
        RProp::Corr(s) => {
            v.push(9);
            v.extend(mstr(s))
        }
        RProp::User(a, b) => {
            v.push(0x26);
            v.extend(mstr(a.as_bytes()));
            v.extend(mstr(b.as_bytes()))
        }
        RProp::Reason(s) => {
            v.push(0x1F);
            v.extend(mstr(s.as_bytes()))
        }
        RProp::Other(id) => {
            v.push(*id);
            match id {
                0x11 | 0x27 => v.extend(7u32.to_be_bytes()),
                0x21 | 0x22 | 0x13 | 0x23 => v.extend(7u16.to_be_bytes()),
                0x24 | 0x25 | 0x28 | 0x29 | 0x2A | 0x0B => v.push(1),
                _ => v.extend(mstr(b"x")),
            }
        }
    }
    v
}

pub fn enc_props(ps: &[RProp]) -> Vec<u8> {
    let b: Vec<u8> = ps.iter().flat_map(enc_prop).collect();
    let mut v = vbi(b.len());
    v.extend(b);
    v
}

pub fn frame(h: u8, b: &[u8]) -> Vec<u8> {
    let mut v = vec![h];
    v.extend(vbi(b.len()));
    v.extend_from_slice(b);
    v
}

pub fn connack(sp: bool, reason: u8, ps: &[RProp]) -> Vec<u8> {
    let mut b = vec![sp as u8, reason];
    b.extend(enc_props(ps));
    frame(0x20, &b)
}
#[allow(clippy::too_many_arguments)]
pub fn publish(dup: bool, qos: u8, retain: bool, topic: &str, pid: u16, ps: &[RProp], payload: &[u8]) -> Vec<u8> {
    let mut b = mstr(topic.as_bytes());
    if qos > 0 {
        b.extend(pid.to_be_bytes());
    }
    b.extend(enc_props(ps));
    b.extend_from_slice(payload);
    frame(0x30 | (dup as u8) << 3 | qos << 1 | retain as u8, &b)
}
pub fn puback(pid: u16) -> Vec<u8> {
    frame(0x40, &pid.to_be_bytes())
}
pub fn puback_r(pid: u16, reason: u8) -> Vec<u8> {
    let mut b = pid.to_be_bytes().to_vec();
    b.push(reason);
    frame(0x40, &b)
}
pub fn puback_p(pid: u16, reason: u8, ps: &[RProp]) -> Vec<u8> {
    let mut b = pid.to_be_bytes().to_vec();
    b.push(reason);
    b.extend(enc_props(ps));
    frame(0x40, &b)
}
pub fn suback(pid: u16, reason: u8, ps: &[RProp]) -> Vec<u8> {
    let mut b = pid.to_be_bytes().to_vec();
    b.extend(enc_props(ps));
    b.push(reason);
    frame(0x90, &b)
}
pub fn unsuback(pid: u16, reason: u8, ps: &[RProp]) -> Vec<u8> {
    let mut b = pid.to_be_bytes().to_vec();
    b.extend(enc_props(ps));
    b.push(reason);
    frame(0xB0, &b)
}
pub fn pingresp() -> Vec<u8> {
    vec![0xD0, 0]
}
pub fn disconnect(reason: u8) -> Vec<u8> {
    if reason == 0 {
        vec![0xE0, 0]
    } else {
        vec![0xE0, 1, reason]
    }
}
pub fn disconnect_p(reason: u8, ps: &[RProp]) -> Vec<u8> {
    let mut b = vec![reason];
    b.extend(enc_props(ps));
    frame(0xE0, &b)
}
