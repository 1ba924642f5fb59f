package main "sourcegraph.com/sourcegraph/appdash/cmd/appdash"

# ---- C26 ----

extern ".ServeHTTP" event
extern "net/http.Error" event
extern "(*encoding/base64.Encoding).EncodeToString" pure
extern "crypto/subtle.ConstantTimeCompare" pure
define Compare(a: seq[uint8], b: seq[uint8]): int = pure("crypto/subtle.ConstantTimeCompare", int, a, b)
axiom compare: forall a: seq[uint8], b: seq[uint8] :: {Compare(a, b)} Compare(a, b) == (if a == b then 1 else 0)
define Base64(s: string): string = pure("(*encoding/base64.Encoding).EncodeToString", string, base64.StdEncoding, bytes(s))

define HGet(h: http.Header, k: string): string = if k in h && len(h[k]) > 0 then h[k][0] else ""

func newBasicAuthHandler(user, passwd, h) (r)
  property C26
  ensures wraps: typeis(r, *basicAuthHandler) && unbox(r, *basicAuthHandler).Handler == h
      && seq(unbox(r, *basicAuthHandler).want) == bytes("Basic " + Base64(user + ":" + passwd))

func (*basicAuthHandler).ServeHTTP(h, w, r)
  property C26
  requires request: r != nil && w != nil && h.Handler != nil
  ghost served: math = 0
  ghost status: math = 0
  on ServeHTTP(x, y, z): served = served + 1
  on Error(x, m, c): status = (if status == 0 then c else status)
  on WriteHeader(x, c): status = (if status == 0 then c else status)
  oncall ServeHTTP(x, y, z) [only with the right credentials]: x == h.Handler && y == w && z == r && served == 0 && status == 0
      && bytes(old(HGet(r.Header, "Authorization"))) == seq(h.want)
  assume-after Header(x) [a response writer has a header map]: res(log, http.Header) != nil
  oncall Error(x, m, c) [refusal carries a challenge]: x == w && HGet(res(log, http.Header), "Www-Authenticate") == "Basic realm=\"appdash\""
  ensures admitted: bytes(old(HGet(r.Header, "Authorization"))) == old(seq(h.want)) ==> log == old(log) + ev.ServeHTTP(h.Handler, w, r)
  ensures refused: bytes(old(HGet(r.Header, "Authorization"))) != old(seq(h.want)) ==> served == 0 && status == 401

extern "net/http.ListenAndServe" event
extern "net/http.ListenAndServeTLS" event
extern "sourcegraph.com/sourcegraph/appdash/traceapp.New" event force
extern "sourcegraph.com/sourcegraph/appdash/cmd/appdash.sampleData" opaque force
extern "(*sourcegraph.com/sourcegraph/appdash.MemoryStore).ReadFrom" opaque force

# What serve listens with: the web app itself, or the web app behind the configured credentials.
define Guarded(c: *ServeCmd, h: http.Handler, app: any): bool =
    (c.BasicAuth == "" ==> h == app)
    && (c.BasicAuth != "" ==> typeis(h, *basicAuthHandler) && unbox(h, *basicAuthHandler).Handler == app
      && seq(unbox(h, *basicAuthHandler).want) == bytes("Basic " + Base64(c.BasicAuth)))

func (*ServeCmd).Execute(c, args) (err)
  property C26
  spawn skip
  ghost app: any = nil
  on New(r, u): app = iface(res(log, *traceapp.App), *traceapp.App)
  assume-after New(r, u) [a web app is returned]: res1(log, error) == nil ==> res(log, *traceapp.App) != nil
  oncall ListenAndServe(a, h) [behind basic auth]: Guarded(c, h, app)
  oncall ListenAndServeTLS(a, x, y, h) [behind basic auth, TLS]: Guarded(c, h, app)
