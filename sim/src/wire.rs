//! The five message kinds of the code under test behind one interface.

use imap_codec::{
    AuthenticateDataCodec, CommandCodec, GreetingCodec, IdleDoneCodec, ResponseCodec,
    decode::{AuthenticateDataDecodeError, CommandDecodeError, Decoder, GreetingDecodeError, IdleDoneDecodeError, ResponseDecodeError},
    encode::{Encoded, Encoder, Fragment},
    fragmentizer::{DecodeMessageError, Fragmentizer},
    imap_types::{
        IntoStatic,
        auth::AuthenticateData,
        command::Command,
        core::LiteralMode,
        extensions::idle::IdleDone,
        response::{Greeting, Response},
    },
};

use crate::gens::G;

#[derive(Debug, Clone, Copy, PartialEq, Eq)]
pub enum Kind {
    Command,
    Response,
    Greeting,
    Auth,
    Idle,
}
pub const KINDS: [Kind; 5] = [Kind::Command, Kind::Response, Kind::Greeting, Kind::Auth, Kind::Idle];

#[derive(Debug, Clone, PartialEq, Eq)]
pub enum Msg {
    Command(Command<'static>),
    Response(Response<'static>),
    Greeting(Greeting<'static>),
    Auth(AuthenticateData<'static>),
    Idle(IdleDone),
}

#[derive(Debug, Clone, PartialEq, Eq)]
pub enum Err {
    Incomplete,
    /// Tag (commands only), length, mode (commands only).
    Literal(Option<String>, u32, Option<LiteralMode>),
    Failed,
}

/// What a whole message, taken from a fragmentizer, decodes to.
#[derive(Debug, Clone, PartialEq, Eq)]
pub enum Whole {
    Ok(Msg),
    Err(Err),
    Remainder(Msg, Vec<u8>),
    TooLong(Vec<u8>),
    Poisoned(Vec<u8>),
}

impl Msg {
    pub fn kind(&self) -> Kind {
        match self {
            Msg::Command(_) => Kind::Command,
            Msg::Response(_) => Kind::Response,
            Msg::Greeting(_) => Kind::Greeting,
            Msg::Auth(_) => Kind::Auth,
            Msg::Idle(_) => Kind::Idle,
        }
    }
    pub fn encoded(&self) -> Encoded {
        match self {
            Msg::Command(m) => CommandCodec::default().encode(m),
            Msg::Response(m) => ResponseCodec::default().encode(m),
            Msg::Greeting(m) => GreetingCodec::default().encode(m),
            Msg::Auth(m) => AuthenticateDataCodec::default().encode(m),
            Msg::Idle(m) => IdleDoneCodec::default().encode(m),
        }
    }
    pub fn fragments(&self) -> Vec<Fragment> {
        self.encoded().collect()
    }
    pub fn bytes(&self) -> Vec<u8> {
        self.encoded().dump()
    }
    /// Equal, also in what `==` of a date ignores (the offset).
    pub fn same(&self, other: &Msg) -> bool {
        self == other && format!("{self:?}") == format!("{other:?}")
    }
    /// The same message, except that sequence sets may have been normalised (and what the quirks promise to change).
    pub fn alike(&self, other: &Msg) -> bool {
        if self.same(other) {
            return true;
        }
        let debug = |m: &Msg| {
            let s = format!("{m:?}");
            if cfg!(feature = "quirk_off") { s.replace("Id { parameters: Some([]) }", "Id { parameters: None }") } else { s }
        };
        let (ta, sa) = crate::seqref::extract(&debug(self));
        let (tb, sb) = crate::seqref::extract(&debug(other));
        ta == tb && sa.len() == sb.len() && sa.iter().zip(&sb).all(|(x, y)| crate::seqref::differ(x, y).is_none())
    }
    pub fn generate(g: &mut G, kind: Kind) -> Msg {
        match kind {
            Kind::Command => Msg::Command(g.command()),
            Kind::Response => Msg::Response(g.response()),
            Kind::Greeting => Msg::Greeting(g.greeting()),
            Kind::Auth => Msg::Auth(g.auth_data()),
            Kind::Idle => Msg::Idle(IdleDone),
        }
    }
}

impl Kind {
    pub fn draw(t: &mut crate::tape::Tape) -> Kind {
        match t.below(10) {
            0..=4 => Kind::Command,
            5..=7 => Kind::Response,
            8 => *t.pick(&[Kind::Greeting, Kind::Auth]),
            _ => *t.pick(&[Kind::Auth, Kind::Greeting, Kind::Idle]),
        }
    }
    /// Decodes the first message; yields it and the number of bytes left.
    pub fn decode(self, b: &[u8]) -> Result<(usize, Msg), Err> {
        macro_rules! go {
            ($codec:ident, $v:ident, $e:expr) => {
                match $codec::default().decode(b) {
                    Ok((rem, m)) => Ok((rem.len(), Msg::$v(m.into_static()))),
                    Result::Err(e) => Result::Err($e(e)),
                }
            };
        }
        match self {
            Kind::Command => go!(CommandCodec, Command, cmd_err),
            Kind::Response => go!(ResponseCodec, Response, resp_err),
            Kind::Greeting => go!(GreetingCodec, Greeting, |e| match e {
                GreetingDecodeError::Incomplete => Err::Incomplete,
                GreetingDecodeError::Failed => Err::Failed,
            }),
            Kind::Auth => go!(AuthenticateDataCodec, Auth, |e| match e {
                AuthenticateDataDecodeError::Incomplete => Err::Incomplete,
                AuthenticateDataDecodeError::Failed => Err::Failed,
            }),
            Kind::Idle => go!(IdleDoneCodec, Idle, |e| match e {
                IdleDoneDecodeError::Incomplete => Err::Incomplete,
                IdleDoneDecodeError::Failed => Err::Failed,
            }),
        }
    }
    pub fn decode_static(self, b: &[u8]) -> Result<(usize, Msg), Err> {
        macro_rules! go {
            ($codec:ident, $v:ident, $e:expr) => {
                match $codec::default().decode_static(b) {
                    Ok((rem, m)) => Ok((rem.len(), Msg::$v(m))),
                    Result::Err(e) => Result::Err($e(e)),
                }
            };
        }
        match self {
            Kind::Command => go!(CommandCodec, Command, cmd_err),
            Kind::Response => go!(ResponseCodec, Response, resp_err),
            Kind::Greeting => go!(GreetingCodec, Greeting, |e| match e {
                GreetingDecodeError::Incomplete => Err::Incomplete,
                GreetingDecodeError::Failed => Err::Failed,
            }),
            Kind::Auth => go!(AuthenticateDataCodec, Auth, |e| match e {
                AuthenticateDataDecodeError::Incomplete => Err::Incomplete,
                AuthenticateDataDecodeError::Failed => Err::Failed,
            }),
            Kind::Idle => go!(IdleDoneCodec, Idle, |e| match e {
                IdleDoneDecodeError::Incomplete => Err::Incomplete,
                IdleDoneDecodeError::Failed => Err::Failed,
            }),
        }
    }
    /// Decodes the current message of a fragmentizer.
    pub fn decode_message(self, f: &Fragmentizer) -> Whole {
        macro_rules! go {
            ($codec:ident, $v:ident, $e:expr) => {
                match f.decode_message(&$codec::default()) {
                    Ok(m) => Whole::Ok(Msg::$v(m.into_static())),
                    Result::Err(DecodeMessageError::DecodingFailure(e)) => Whole::Err($e(e)),
                    Result::Err(DecodeMessageError::DecodingRemainder { message, remainder }) => {
                        Whole::Remainder(Msg::$v(message.into_static()), remainder.declassify().to_vec())
                    }
                    Result::Err(DecodeMessageError::MessageTooLong { initial }) => Whole::TooLong(initial.declassify().to_vec()),
                    Result::Err(DecodeMessageError::MessagePoisoned { discarded }) => Whole::Poisoned(discarded.declassify().to_vec()),
                }
            };
        }
        match self {
            Kind::Command => go!(CommandCodec, Command, cmd_err),
            Kind::Response => go!(ResponseCodec, Response, resp_err),
            Kind::Greeting => go!(GreetingCodec, Greeting, |e| match e {
                GreetingDecodeError::Incomplete => Err::Incomplete,
                GreetingDecodeError::Failed => Err::Failed,
            }),
            Kind::Auth => go!(AuthenticateDataCodec, Auth, |e| match e {
                AuthenticateDataDecodeError::Incomplete => Err::Incomplete,
                AuthenticateDataDecodeError::Failed => Err::Failed,
            }),
            Kind::Idle => go!(IdleDoneCodec, Idle, |e| match e {
                IdleDoneDecodeError::Incomplete => Err::Incomplete,
                IdleDoneDecodeError::Failed => Err::Failed,
            }),
        }
    }
    /// The same question, answered by the decoder alone.
    pub fn decode_whole(self, b: &[u8]) -> Whole {
        match self.decode(b) {
            Ok((0, m)) => Whole::Ok(m),
            Ok((n, m)) => Whole::Remainder(m, b[b.len() - n..].to_vec()),
            Result::Err(e) => Whole::Err(e),
        }
    }
}

fn cmd_err(e: CommandDecodeError) -> Err {
    match e {
        CommandDecodeError::Incomplete => Err::Incomplete,
        CommandDecodeError::LiteralFound { tag, length, mode } => Err::Literal(Some(tag.inner().to_string()), length, Some(mode)),
        CommandDecodeError::Failed => Err::Failed,
    }
}
fn resp_err(e: ResponseDecodeError) -> Err {
    match e {
        ResponseDecodeError::Incomplete => Err::Incomplete,
        ResponseDecodeError::LiteralFound { length } => Err::Literal(None, length, None),
        ResponseDecodeError::Failed => Err::Failed,
    }
}

impl Whole {
    pub fn same(&self, o: &Whole) -> bool {
        self == o && format!("{self:?}") == format!("{o:?}")
    }
}
