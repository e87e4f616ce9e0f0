package main

import (
	"bytes"
	"compress/gzip"
	"go/ast"
	"go/token"
	"go/types"
	"io"
	"sort"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// ---- C05: messages are signed by their actor, registered and validated

// reader for the wire format of protobuf, as far as descriptors need it
func wire(b []byte, f func(num int, wt int, v uint64, data []byte)) bool {
	varint := func() (uint64, bool) {
		var x uint64
		for i := uint(0); i < 70; i += 7 {
			if len(b) == 0 {
				return 0, false
			}
			c := b[0]
			b = b[1:]
			x |= uint64(c&0x7f) << i
			if c < 0x80 {
				return x, true
			}
		}
		return 0, false
	}
	for len(b) > 0 {
		k, ok := varint()
		if !ok {
			return false
		}
		num, wt := int(k>>3), int(k&7)
		switch wt {
		case 0:
			v, ok := varint()
			if !ok {
				return false
			}
			f(num, wt, v, nil)
		case 1, 5:
			n := 8
			if wt == 5 {
				n = 4
			}
			if len(b) < n {
				return false
			}
			f(num, wt, 0, b[:n])
			b = b[n:]
		case 2:
			n, ok := varint()
			if !ok || uint64(len(b)) < n {
				return false
			}
			f(num, wt, 0, b[:n])
			b = b[n:]
		default:
			return false
		}
	}
	return true
}

// protoMsg: a message of a file descriptor, with the options named by number.
type protoMsg struct {
	name    string
	signers []string // cosmos.msg.v1.signer
	fields  map[string]int
}

type protoSvc struct {
	name    string
	methods map[string]string // method -> input type
}

// descriptors reads the embedded file descriptors of a package from the source.
func (c *Ctx) descriptors(mod string) (msgs map[string]*protoMsg, svcs map[string]*protoSvc, bad string) {
	msgs, svcs = map[string]*protoMsg{}, map[string]*protoSvc{}
	for _, p := range c.pr.Pkgs {
		if !strings.HasSuffix(p.Path, "/x/"+mod+"/types") {
			continue
		}
		for _, file := range p.Files {
			for _, d := range file.Decls {
				gd, ok := d.(*ast.GenDecl)
				if !ok || gd.Tok != token.VAR {
					continue
				}
				for _, sp := range gd.Specs {
					vs := sp.(*ast.ValueSpec)
					for i, nm := range vs.Names {
						if !strings.HasPrefix(nm.Name, "fileDescriptor_") || i >= len(vs.Values) {
							continue
						}
						cl, ok := vs.Values[i].(*ast.CompositeLit)
						if !ok {
							continue
						}
						var raw []byte
						for _, e := range cl.Elts {
							if bl, ok := e.(*ast.BasicLit); ok {
								v, err := strconv.ParseUint(bl.Value, 0, 8)
								if err != nil {
									bad = nm.Name
								}
								raw = append(raw, byte(v))
							}
						}
						zr, err := gzip.NewReader(bytes.NewReader(raw))
						if err != nil {
							bad = nm.Name
							continue
						}
						fd, err := io.ReadAll(zr)
						if err != nil {
							bad = nm.Name
							continue
						}
						if !parseFile(fd, msgs, svcs) {
							bad = nm.Name
						}
					}
				}
			}
		}
	}
	return
}

func parseFile(fd []byte, msgs map[string]*protoMsg, svcs map[string]*protoSvc) bool {
	ok := true
	sub := func(b []byte, f func(num, wt int, v uint64, d []byte)) {
		if !wire(b, f) {
			ok = false
		}
	}
	sub(fd, func(num, wt int, v uint64, d []byte) {
		switch num {
		case 4: // message
			m := &protoMsg{fields: map[string]int{}}
			sub(d, func(num, wt int, v uint64, d []byte) {
				switch num {
				case 1:
					m.name = string(d)
				case 2: // field
					name, n := "", 0
					sub(d, func(num, wt int, v uint64, d []byte) {
						if num == 1 {
							name = string(d)
						}
						if num == 3 {
							n = int(v)
						}
					})
					m.fields[name] = n
				case 7: // options
					sub(d, func(num, wt int, v uint64, d []byte) {
						if num == 11110000 {
							m.signers = append(m.signers, string(d))
						}
					})
				}
			})
			msgs[m.name] = m
		case 6: // service
			s := &protoSvc{methods: map[string]string{}}
			sub(d, func(num, wt int, v uint64, d []byte) {
				switch num {
				case 1:
					s.name = string(d)
				case 2:
					name, in := "", ""
					sub(d, func(num, wt int, v uint64, d []byte) {
						if num == 1 {
							name = string(d)
						}
						if num == 2 {
							in = string(d)
						}
					})
					s.methods[name] = in[strings.LastIndex(in, ".")+1:]
				}
			})
			svcs[s.name] = s
		}
	})
	return ok
}

// registeredTypes: the types a RegisterInterfaces of the module registers on
// every path, as implementations of sdk.Msg; all says that the whole service
// description is registered.
func (c *Ctx) registeredTypes(mod string) (ts map[string]bool, all bool) {
	ts = map[string]bool{}
	for _, g := range c.pr.Funcs {
		if g.Name() != "RegisterInterfaces" || fnPkgPath(g) != modPath+"/x/"+mod || g.Signature.Recv() == nil || g.Synthetic != "" {
			continue
		}
		var visit func(f *ssa.Function, depth int)
		visit = func(f *ssa.Function, depth int) {
			if depth > 6 || isPB(c.pr, f) {
				return
			}
			for _, b := range f.Blocks {
				for _, ins := range b.Instrs {
					ci, ok := ins.(ssa.CallInstruction)
					if !ok || !onEveryPath(f, b) {
						continue
					}
					com := ci.Common()
					switch n := calleeName(com); {
					case strings.HasSuffix(n, "msgservice.RegisterMsgServiceDesc"):
						if len(com.Args) == 2 {
							if gl, ok := com.Args[1].(*ssa.Global); ok && gl.Name() == "_Msg_serviceDesc" && moduleOf(gl.Pkg.Pkg.Path()) == mod {
								all = true
							}
						}
					case com.IsInvoke() && com.Method.Name() == "RegisterImplementations":
						for _, v := range variadic(com.Args[len(com.Args)-1]) {
							if mi, ok := v.(*ssa.MakeInterface); ok {
								ts[types.TypeString(mi.X.Type(), nil)] = true
							}
						}
					default:
						if sf := com.StaticCallee(); sf != nil && strings.HasPrefix(fnPkgPath(sf), modPath) {
							visit(sf, depth+1)
						}
					}
				}
			}
		}
		visit(g, 0)
	}
	return
}

// variadic: the values stored in the array behind a variadic argument.
func variadic(v ssa.Value) []ssa.Value {
	sl, ok := v.(*ssa.Slice)
	if !ok {
		return nil
	}
	var out []ssa.Value
	for _, ref := range *sl.X.Referrers() {
		if ia, ok := ref.(*ssa.IndexAddr); ok {
			for _, r2 := range *ia.Referrers() {
				if st, ok := r2.(*ssa.Store); ok && st.Addr == ia {
					out = append(out, st.Val)
				}
			}
		}
	}
	return out
}

// extraChecks: what ValidateBasic promises beyond the signer's address.
var extraChecks = map[string][]string{
	"delegation.MsgDelegate":            {"addr(self.Staker).err == nil"},
	"delegation.MsgUndelegate":          {"addr(self.Staker).err == nil"},
	"delegation.MsgWithdrawRewards":     {"addr(self.Staker).err == nil"},
	"funders.MsgCreateFunder":           {`self.Moniker != ""`},
	"funders.MsgUpdateFunder":           {`self.Moniker != ""`},
	"funders.MsgDefundPool":             {"!iszero(self.Amounts)", `dyn("Coins.Validate", self.Amounts).err == nil`},
	"funders.MsgFundPool":               {"!iszero(self.Amounts) || !iszero(self.AmountsPerBundle)", `iszero(self.Amounts) || dyn("Coins.Validate", self.Amounts).err == nil`, `iszero(self.AmountsPerBundle) || dyn("Coins.Validate", self.AmountsPerBundle).err == nil`},
	"stakers.MsgClaimCommissionRewards": {"!iszero(self.Amounts)", `dyn("Coins.Validate", self.Amounts).err == nil`},
	"stakers.MsgJoinPool":               {"addr(self.Valaddress).err == nil"},
	"stakers.MsgUpdateCommission":       {"!isnil(self.Commission)", "self.Commission >= 0", "self.Commission <= 1"},
	"stakers.MsgUpdateMetadata":         {"strlen(self.Moniker) <= 255", "strlen(self.Website) <= 255", "strlen(self.SecurityContact) <= 255", "strlen(self.Details) <= 255", `self.Identity == "" || hex.DecodeString(self.Identity).err == nil`, `self.Identity == "" || len(hex.DecodeString(self.Identity).val) == 8`},
	"pool.MsgCreatePool":                {"self.UploadInterval != 0", "self.MaxBundleSize != 0", "!isnil(self.InflationShareWeight)", "self.InflationShareWeight >= 0"},
}

func init() {
	regT("C05", "service and codec registration analysis over the call graph, decoding of the embedded protobuf descriptors, and path-sensitive dataflow of ValidateBasic", "Every method of every published Msg service is implemented by a registered server; its request type is registered with the interface registry on every path of the module's RegisterInterfaces; the signer option in the embedded descriptor, the legacy GetSigners and the account the handler acts for are one field; ValidateBasic refuses a malformed signer address and the malformed user input listed per message.",
		func(c *Ctx) {
			c.sec("served", func() { c.served(true) })
			type req struct {
				mod, name, field string
				nt               *types.Named
			}
			var reqs []req
			for _, s := range c.services() {
				if s.typ != "MsgServer" {
					continue
				}
				for i := 0; i < s.itf.NumMethods(); i++ {
					sg := s.itf.Method(i).Type().(*types.Signature)
					nt := namedOf(sg.Params().At(1).Type())
					if nt == nil {
						continue
					}
					fld := "Authority"
					if st, ok := nt.Underlying().(*types.Struct); ok {
						for j := 0; j < st.NumFields(); j++ {
							if st.Field(j).Name() == "Creator" {
								fld = "Creator"
							}
						}
					}
					reqs = append(reqs, req{s.mod, nt.Obj().Name(), fld, nt})
				}
			}
			sort.Slice(reqs, func(i, j int) bool { return reqs[i].mod+reqs[i].name < reqs[j].mod+reqs[j].name })
			c.extra["messages"] = len(reqs)
			mods := map[string]bool{}
			for _, q := range reqs {
				mods[q.mod] = true
			}
			c.sec("registered with the codec", func() {
				reg, all := map[string]map[string]bool{}, map[string]bool{}
				for m := range mods {
					reg[m], all[m] = c.registeredTypes(m)
				}
				for _, q := range reqs {
					t := types.TypeString(types.NewPointer(q.nt), nil)
					c.check(all[q.mod] || reg[q.mod][t], q.mod+"."+q.name, q.nt.Obj().Pos(), "%s.%s is not registered with the interface registry: a transaction or proposal carrying it cannot be decoded", q.mod, q.name)
				}
			})
			c.sec("signer", func() {
				desc := map[string]map[string]*protoMsg{}
				svc := map[string]map[string]*protoSvc{}
				for m := range mods {
					d, s, bad := c.descriptors(m)
					c.check(bad == "", m+" descriptor", 0, "the embedded descriptor %s of %s cannot be read", bad, m)
					desc[m], svc[m] = d, s
				}
				for _, q := range reqs {
					d := desc[q.mod][q.name]
					want := strings.ToLower(q.field)
					if !c.check(d != nil, q.mod+"."+q.name+" descriptor", q.nt.Obj().Pos(), "%s.%s is not described by an embedded descriptor", q.mod, q.name) {
						continue
					}
					c.check(len(d.signers) == 1 && d.signers[0] == want, q.mod+"."+q.name+" signer option", q.nt.Obj().Pos(), "the descriptor of %s.%s names the signers %v, the handler acts for %s", q.mod, q.name, d.signers, want)
					_, has := d.fields[want]
					c.check(has, q.mod+"."+q.name+" signer field", q.nt.Obj().Pos(), "%s.%s has no field %s", q.mod, q.name, want)
					// the service description carries the message under the method
					n := 0
					if s := svc[q.mod]["Msg"]; s != nil {
						for _, in := range s.methods {
							if in == q.name {
								n++
							}
						}
					}
					c.check(n == 1, q.mod+"."+q.name+" method", q.nt.Obj().Pos(), "%d methods of the Msg service of %s take %s", n, q.mod, q.name)
				}
			})
			c.sec("legacy signers", func() {
				for _, q := range reqs {
					if len(c.su.byName[q.mod+"."+q.name+".GetSigners"]) == 0 {
						continue
					}
					r := c.root(q.mod + "." + q.name + ".GetSigners")
					r.returns(0, []string{"addr(self." + q.field + ").err == nil"}, "list(addr(self."+q.field+"))")
				}
			})
			c.sec("validated", func() {
				for _, q := range reqs {
					n := q.mod + "." + q.name
					c.check(len(c.su.byName[n+".ValidateBasic"]) > 0, n+" ValidateBasic", q.nt.Obj().Pos(), "%s has no ValidateBasic", n)
					v := c.root(n + ".ValidateBasic")
					v.always("addr(self." + q.field + ").err == nil")
					v.always(extraChecks[n]...)
				}
				// fields of a pool update are checked where given
				v := c.root("pool.MsgUpdatePool.ValidateBasic")
				in := "json.Unmarshal(zero(\"pool.PoolUpdate\"), self.Payload)"
				v.always(in + ".err == nil")
				v.always(""+in+".UploadInterval == nil || "+in+".UploadInterval != 0", ""+in+".MaxBundleSize == nil || "+in+".MaxBundleSize != 0", ""+in+".InflationShareWeight == nil || "+in+".InflationShareWeight >= 0")
			})
		})
}
