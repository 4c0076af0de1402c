"""What a protocol is configured with is what the service works with (C19, C20, C22, C25)."""
from vx import Unit, Fn
from common import HEAD, FOOT

BU = 'tentacle/src/builder.rs'
CF = 'tentacle/src/service/config.rs'

def closure(name, args, ret, extra='', mut=''):
    return '''
#[verifier::external_body]
pub struct %(n)s { x: usize }
impl %(n)s {
  // which closure this is: calling it does not make it another one
  pub uninterp spec fn which(&self) -> int;
  // the closure of the default configuration
  #[verifier::external_body]
  pub fn usual() -> %(n)s { unimplemented!() }%(e)s
}
''' % dict(n=name, e=extra + ('''
  #[verifier::external_body]
  pub fn call(&%sself%s) -> (r: %s)%s { unimplemented!() }''' % (mut, args, ret, ' ensures final(self).which() == old(self).which()' if mut else '') if args is not None else ''))

PRE = r"""
#[derive(Clone, Copy, PartialEq, Eq, Structural)]
pub struct ProtocolId(pub usize);
impl ProtocolId { pub fn new(i: usize) -> (r: ProtocolId) ensures r.0 == i { ProtocolId(i) } }
#[verifier::external_body]
pub struct ServiceUser { x: usize }
#[verifier::external_body]
pub struct SessionUser { x: usize }
#[verifier::external_body]
pub struct CodecBox { x: usize }
#[verifier::external_body]
pub struct SpawnBox { x: usize }
#[verifier::external_body]
pub struct NameFn { x: usize }
impl NameFn {
  // a name function gives the same name each time it is called
  pub uninterp spec fn names(&self, p: ProtocolId) -> Seq<char>;
  #[verifier::external_body]
  pub fn call(&self, p: ProtocolId) -> (r: String) ensures r@ == self.names(p) { unimplemented!() }
  #[verifier::external_body]
  pub fn usual() -> NameFn { unimplemented!() }
}
#[verifier::external_body]
pub fn clone_texts(v: &Vec<String>) -> (r: Vec<String>) ensures r@.len() == v@.len(), forall|i: int| 0 <= i < r@.len() ==> (#[trigger] r@[i])@ == v@[i]@ { unimplemented!() }
#[verifier::external_body]
pub fn one_text(s: &str) -> (r: Vec<String>) ensures r@.len() == 1, r@[0]@ == s@ { unimplemented!() }
""" + closure('CodecFn', '', 'CodecBox') + closure('SessionHandleFn', '', 'ProtocolHandle<SessionUser>', mut='mut ') + closure('SelectVersionFn', None, '') + closure('BeforeReceiveFn', None, '') + closure('BeforeSend', None, '') + r"""
#[verifier::external_body]
pub struct ServiceFn { x: usize }
impl ServiceFn {
  pub uninterp spec fn gives(&self) -> ProtocolHandle<ServiceUser>;
  #[verifier::external_body]
  pub fn call(self) -> (r: ProtocolHandle<ServiceUser>) ensures r == self.gives() { unimplemented!() }
}
"""
def build(root='/repo'):
    u = Unit('meta', root)
    N, H, S, R = ['C19'], ['C20'], ['C25'], ['C22']
    ALL = N + H + S
    u.rule("Box < dyn ServiceProtocol + Send + 'static + Unpin >", 'ServiceUser', 'the user handle is opaque')
    u.rule("Box < dyn SessionProtocol + Send + 'static + Unpin >", 'SessionUser', 'the user handle is opaque')
    u.rule("Box < dyn Codec + Send + 'static >", 'CodecBox', 'the codec is opaque')
    u.rule("Box < dyn ProtocolSpawn + Send + Sync + 'static >", 'SpawnBox', 'the spawned reader is opaque')
    u.rule("Box < dyn Fn ( bytes :: Bytes ) -> bytes :: Bytes + Send + 'static >", 'BeforeSend', 'a closure is opaque')
    u.rule('Arc < Meta >', 'Meta', 'an Arc is its content')
    u.rule('Arc :: new ( $x )', '$x', 'an Arc is its content')
    u.rule('( self . $idf ) ( )', 'self . $idf . call ( )', 'calling a closure')
    u.rule('( self . inner . $idf ) ( )', 'self . inner . $idf . call ( )', 'calling a closure')
    u.rule('( self . inner . $idf ) ( $x )', 'self . inner . $idf . call ( $x )', 'calling a closure')
    u.rule(':: std :: mem :: replace', 'std :: mem :: replace', '')
    u.rule('matches ! ( self , ProtocolHandle :: $idv ( _ ) )', '( match self { ProtocolHandle :: $idv ( _ ) => true , _ => false } )', 'macro')
    u.rule('matches ! ( self , ProtocolHandle :: $idv )', '( match self { ProtocolHandle :: $idv => true , _ => false } )', 'macro')
    u.text(HEAD + PRE)
    u.item(CF, 'enum', 'ProtocolHandle'); u.item(CF, 'struct', 'BlockingFlag', '#[derive(Clone, Copy)]')
    u.item(CF, 'struct', 'Meta'); u.item(CF, 'struct', 'ProtocolMeta'); u.item(BU, 'struct', 'MetaBuilder')
    PH = r'impl < T > ProtocolHandle < T >'
    is_ = lambda n, v: Fn(PH, n, props=H, ensures=['ret == (%s)' % v])
    u.impl('impl<T> ProtocolHandle<T>', CF, [is_('is_callback', 'self is Callback'), is_('is_neither', 'self is Neither'), is_('is_event', 'self is Event'), is_('is_both', 'self is Both'), is_('has_event', 'self is Event || self is Both')])
    u.impl('impl BlockingFlag', CF, [Fn('impl Default for BlockingFlag', 'default', props=H, sig='pub fn default() -> (ret: BlockingFlag)')])
    PM = 'impl ProtocolMeta'
    u.impl(PM, CF, [
        Fn(PM, 'id', props=ALL, ensures=['ret == self.inner.id']),
        Fn(PM, 'name', props=N, ensures=['ret@ == self.inner.name.names(self.inner.id)']),
        Fn(PM, 'support_versions', props=N, rules=[('$x . clone ( )', 'clone_texts ( & $x )')], ensures=['ret@.len() == self.inner.support_versions@.len()', 'forall|i: int| 0 <= i < ret@.len() ==> (#[trigger] ret@[i])@ == self.inner.support_versions@[i]@']),
        Fn(PM, 'codec', props=H),
        Fn(PM, 'service_handle', props=H + S, ensures=['ret == old(self).service_handle', '*final(self) == (ProtocolMeta { service_handle: final(self).service_handle, ..*old(self) })']),
        Fn(PM, 'session_handle', props=H + S, ensures=['*final(self) == (ProtocolMeta { session_handle: final(self).session_handle, ..*old(self) })', 'final(self).session_handle.which() == old(self).session_handle.which()']),
        Fn(PM, 'blocking_flag', props=H, ensures=['ret == self.flag'])])
    MB = 'impl MetaBuilder'
    bx = [('Box :: new ( $idx )', '$idx')]
    def put(n, ty, props, arg=None, field=None, val=None):
        arg = arg or n; field = field or n
        return Fn(MB, n, props=props, rules=bx + [('%s ( ) ;' % arg, '%s . call ( ) ;' % arg)], sig='pub fn %s(mut self, %s: %s) -> (ret: MetaBuilder)' % (n, arg, ty), ensures=['ret == (MetaBuilder { %s: %s, ..self })' % (field, val or arg)])
    u.impl(MB, BU, [
        Fn('impl Default for MetaBuilder', 'default', props=ALL, sig='pub fn default() -> (ret: MetaBuilder)',
           rules=[('name : Box :: new ( $x )', 'name : NameFn :: usual ( )'), ('vec ! [ $x . to_owned ( ) ]', 'one_text ( $x )'), ('codec : Box :: new ( $x )', 'codec : CodecFn :: usual ( )'), ('session_handle : Box :: new ( $x )', 'session_handle : SessionHandleFn :: usual ( )'),
                  ('select_version : Box :: new ( $x )', 'select_version : SelectVersionFn :: usual ( )'), ('before_receive : Box :: new ( $x )', 'before_receive : BeforeReceiveFn :: usual ( )')],
           ensures=[(S, 'ret.before_send is None'), (H, 'ret.service_handle is Neither && ret.spawn is None')]),
        Fn(MB, 'new', props=ALL, rules=[('Default :: default ( )', 'MetaBuilder :: default ( )')], ensures=[(S, 'ret.before_send is None'), (H, 'ret.service_handle is Neither && ret.spawn is None')]),
        put('id', 'ProtocolId', ALL), put('name', 'NameFn', N), put('support_versions', 'Vec<String>', N, 'versions'), put('codec', 'CodecFn', H), put('service_handle', 'ServiceFn', H, val='service_handle.gives()'),
        put('session_handle', 'SessionHandleFn', H), put('select_version', 'SelectVersionFn', N, 'f'), put('before_send', 'BeforeSend', S, 'f', val='Some(f)'), put('before_receive', 'BeforeReceiveFn', H, 'f'), put('flag', 'BlockingFlag', H),
        put('protocol_spawn', 'SpawnBox', H, 'spawn', 'spawn', 'Some(spawn)'),
        Fn(MB, 'build', props=ALL, rules=[('assert ! ( $x ) ;', 'let checked_ = $x ;')],
           ensures=['ret.inner.id == self.id', (N, 'ret.inner.name == self.name && ret.inner.support_versions == self.support_versions && ret.inner.select_version == self.select_version'),
                    (H, 'ret.inner.codec == self.codec && ret.inner.before_receive == self.before_receive && ret.inner.spawn == self.spawn'), (H, 'ret.service_handle == self.service_handle && ret.session_handle.which() == self.session_handle.which()'), (S, 'ret.before_send == self.before_send')])])
    u.text(FOOT)
    return u
