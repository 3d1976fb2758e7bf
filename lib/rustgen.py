"""Turns the catalogue into Rust declarations with yaserde derives plus value conversions."""
from catalogue import Catalogue, SCALARS, split_ty
import json
import re


def q(s):
    return json.dumps(s, ensure_ascii=False)


def attr(items):
    return f"  #[yaserde({', '.join(items)})]\n" if items else ""


def rust_ty(ty, qualified):
    if not qualified:
        return ty
    card, base = split_ty(ty)
    if qualified == "macro":
        # the declaration is made by a macro that is given the types of its fields
        return f"\u27e6{ty}\u27e7"
    if qualified == "macroinner":
        return {"one": "\u27e6%s\u27e7", "opt": "Option<\u27e6%s\u27e7>", "vec": "Vec<\u27e6%s\u27e7>"}[card] % base
    if qualified != "qualified":
        # every name behind a path of one or two modules
        return {"one": "%s", "opt": qualified + "Option<%s>", "vec": qualified + "Vec<%s>"}[card] % (qualified + base)
    b = "::std::string::String" if base == "String" else (base if base in SCALARS else "crate::types::" + base)
    return {"one": b, "opt": f"::std::option::Option<{b}>", "vec": f"::std::vec::Vec<{b}>"}[card]


MODULES = {"qualified": "qualified", "two": "m::", "three": "m::n::", "macro": "macro", "macroinner": "macroinner"}

BOUND = "YaSerialize + YaDeserialize + ::std::fmt::Debug + PartialEq + Clone"


def params(t):
    """The declaration's type parameters and where clause."""
    if not t.generic:
        return "", ""
    more = "".join(f", {u}: {BOUND}" for u, _ in t.also) + t.const
    return (f"<{t.param}{more}>", f" where {t.param}: {BOUND}") if t.where else (f"<{t.param}: {BOUND}{more}>", "")


def instance(t):
    """The type the declaration's alias stands for."""
    return f"{t.generic}<{', '.join([t.of] + [o for _, o in t.also] + (['3'] if t.const else []))}>"


def of_param(t, rty, base):
    """A field's type, the parameter standing for the type the declaration is instantiated with."""
    if t.generic and base == t.of:
        return rty.replace(base, t.param)
    for u, o in t.also:
        if base == o:
            return rty.replace(base, u)
    if base == t.name and getattr(t, "noise", False):
        return rty.replace(base, "Self")
    return rust_ty(rty, MODULES.get(t.module))


def shadowed(t, s):
    """The declaration in a module of its own that has other things by the names of the prelude, or made by a macro."""
    if "\u27e6" in s:
        tys = list(dict.fromkeys(re.findall("\u27e6(.*?)\u27e7", s)))
        for i, x in enumerate(tys):
            s = s.replace(f"\u27e6{x}\u27e7", f"$t{i}")
        return "macro_rules! make_%s { (%s) => {\n%s} }\nmake_%s!(%s);\n" % (
            t.name.lower(), ", ".join(f"$t{i}:ty" for i in range(len(tys))), s, t.name.lower(), ", ".join(tys))
    if t.module.startswith("macro"):
        return s
    return SHADOW.replace("around", "around_" + t.name.lower()) + s + "}\npub use around_%s::%s;\n" % (t.name.lower(), t.name)


def common(t):
    items = []
    if t.rename is not None:
        items.append(f"rename = {q(t.rename)}")
    if t.prefix:
        items.append(f"prefix = {q(t.prefix)}")
    if t.defns:
        items.append(f"default_namespace = {q(t.defns)}")
    if t.ns:
        items.append("namespaces = {" + ", ".join(f"{q(k)} = {q(v)}" for k, v in sorted(t.ns.items())) + "}")
    if t.flatten:
        items.append("flatten = true")
    return items


def val_of(jv, ty):
    """Rust expression of type `ty` for a catalogue value."""
    return f"<{ty} as crate::val::Val>::from_val(&crate::val::parse({q(json.dumps(jv))})).unwrap()"


SHADOW = """#[allow(unused, non_camel_case_types)]
mod around {
  use yaserde_derive::{YaDeserialize, YaSerialize};
  pub type Result<T> = ::std::result::Result<T, ()>;
  pub struct Option; pub struct String; pub struct Vec; pub struct Box;
  pub struct Visitor; pub struct XmlEvent; pub struct Namespace; pub struct OwnedAttribute; pub struct Attribute; pub struct Deserializer; pub struct Serializer; pub struct FromStr; pub struct ToString; pub struct Default; pub struct Into; pub struct From; pub struct Iterator;
  pub mod m { pub mod n { pub use ::std::{option::Option, string::String, vec::Vec}; pub use ::std::primitive::*; pub use crate::types::*; } pub use n::*; }
  pub mod std {} pub mod core {} pub mod alloc {} pub mod xml {} pub mod log {}
"""


def around(t):
    """What else stands before a declaration."""
    if not getattr(t, "noise", False):
        return "", ""
    k = len(t.name) + sum(map(ord, t.name))
    return ["", "/// A type; prefix = \"no\".\n", "#[allow(dead_code)]\n"][k % 3], ["", "/** More, rename = \"no\" */\n", "#[allow(unused)]\n", "#[doc(hidden)]\n"][k % 4]


def gen_fields(t, vis, noise):
    """The declarations of the fields, the functions they name and the methods they name."""
    extra, impls = [], []
    body = ""
    for f in t.fields:
        it = []
        if f.attr:
            it.append("attribute = true")
        if f.text:
            it.append("text = true")
        if f.cdata:
            it.append("cdata = true")
        if f.flatten:
            it.append("flatten = true")
        if f.rename is not None:
            it.append(f"rename = {q(f.rename)}")
        if f.prefix:
            it.append(f"prefix = {q(f.prefix)}")
        ident = f.ident.replace("r#", "")
        ty = of_param(t, f.rty, f.base)
        if f.default is not None:
            fn = f"default_{t.name.lower()}_{ident.lower()}"
            it.append(f"default = {q(fn)}")
            extra.append(f"pub fn {fn}() -> {ty} {{ {val_of(f.default, ty)} }}\n")
        if f.skip:
            it.append("skip_serializing = true")
        if f.skip_if is not None:
            fn = f"skip_{ident.lower()}" if vis else f"skip_{t.name.lower()}_{ident.lower()}"
            it.append(f"skip_serializing_if = {q(fn)}")
            impls.append(f"  fn {fn}(&self, v: &{ty}) -> bool {{ *v == {val_of(f.skip_if, ty)} }}\n")
        pre, post = "", ""
        if noise:
            pre = ["", "  /// A field with a comment, rename = \"no\".\n", "  #[allow(dead_code)]\n", "  #[doc = \"attribute = true\"]\n"][len(ident) % 4]
            post = ["", "  #[allow(unused)]\n"][len(ident) % 2]
        body += pre + attr(it) + post + f"  {vis}{f.ident}: {ty},\n"
    return body, extra, impls


def gen_struct(t, out, de_only):
    derives = "Debug, PartialEq, Clone" + ("" if "seronly" in t.tags else ", YaDeserialize") + ("" if de_only else ", YaSerialize")
    items = common(t)
    body, extra, impls = gen_fields(t, "pub ", getattr(t, "noise", False))
    name = t.generic or t.name
    gen, where = params(t)
    rest = f" {{\n{body}}}\n" if body or not getattr(t, "noise", False) else ";\n"
    before, between = around(t)
    s = f"{before}#[derive({derives})]\n{between}" + attr(items).strip() + f"\npub struct {name}{gen}{where}{rest}" + "".join(extra)
    if impls:
        s += f"#[allow(dead_code)]\nimpl {name} {{\n{''.join(impls)}}}\n"
    if "seronly" in t.tags:
        s += f"impl YaDeserialize for {name} {{\n  fn deserialize<R: ::std::io::Read>(_: &mut yaserde::de::Deserializer<R>) -> Result<Self, String> {{ Err(\"not for reading\".to_string()) }}\n}}\n"
    return s


def conv_struct(t):
    fs = [f.ident for f in t.fields]
    tos = ", ".join(f"self.{i}.to_val()" for i in fs)
    frs = ", ".join(f"{i}: crate::val::Val::from_val(crate::val::at(v, {n})?)?" for n, i in enumerate(fs))
    return (f"impl crate::val::Val for {t.name} {{\n  fn to_val(&self) -> Value {{ Value::Array(vec![{tos}]) }}\n"
            f"  fn from_val(v: &Value) -> Result<Self, String> {{ let _ = v; Ok({t.name if not t.generic else t.generic} {{ {frs} }}) }}\n}}\n")


def gen_enum(t, de_only, done, types=None):
    derives = "Debug, PartialEq, Clone, YaDeserialize" + ("" if de_only else ", YaSerialize")
    items = common(t)
    if t.tag:
        items.append(f"tag = {q(t.tag)}")
    auto = t.default_value is None
    if auto:
        derives += ", Default"
    body, extra, impls = "", [], []
    for i, v in enumerate(t.variants):
        it = []
        if v.rename is not None:
            it.append(f"rename = {q(v.rename)}")
        if v.prefix:
            it.append(f"prefix = {q(v.prefix)}")
        if v.flatten is True:
            it.append("flatten = true")
        if auto and i == t.default:
            body += "  #[default]\n"
        if getattr(t, "noise", False):
            # a comment, an attribute of someone else's, a value of its own
            body += ["", "  /// A variant, rename = \"no\".\n", "  #[doc = \"flatten = true\"]\n", "  #[allow(dead_code)]\n"][(len(v.ident) + i) % 4]
        if v.fields is not None:
            b, e, m = gen_fields(types[v.base], "", getattr(t, "noise", False))
            extra += e
            impls += m
            body += attr(it) + f"  {v.ident} {{\n{b}  }},\n"
            continue
        body += attr(it) + f"  {v.ident}" + (f"({'#[yaserde(flatten = true)] ' if v.flatten == 'field' else ''}{of_param(t, v.rty, v.base)})" if v.rty else f" = {3 * i + 1}" if getattr(t, "noise", False) and all(not w.rty for w in t.variants) else "") + ",\n"
    before, between = around(t)
    s = f"{before}#[allow(non_camel_case_types)]\n#[derive({derives})]\n{between}" + attr(items).strip() + f"\npub enum {t.generic or t.name}{params(t)[0]}{params(t)[1]} {{\n{body}}}\n"
    s += "".join(extra) + (f"#[allow(dead_code)]\nimpl {t.name} {{\n{''.join(impls)}}}\n" if impls else "")
    if t.module in MODULES:
        s = shadowed(t, s.replace(", Default)]", ", ::std::default::Default)]"))
    if not auto:
        s += f"impl Default for {t.name} {{ fn default() -> Self {{ {val_of(t.default_value, t.name)} }} }}\n"
    if t.generic:
        s = ("" if t.generic in done else s) + f"pub type {t.name} = {instance(t)};\n"
        done.add(t.generic)
    def named(v):
        return ", ".join(f.ident for f in v.fields), ", ".join(f"{f.ident}.to_val()" for f in v.fields), \
            ", ".join(f"{f.ident}: crate::val::Val::from_val(crate::val::at(crate::val::at(v, 1)?, {i})?)?" for i, f in enumerate(v.fields))
    arms = "".join(
        (f"    {t.name}::{v.ident} {{ {named(v)[0]} }} => Value::Array(vec![Value::from({q(v.ident)}), Value::Array(vec![{named(v)[1]}])]),\n" if v.fields is not None else
         f"    {t.name}::{v.ident} => Value::Array(vec![Value::from({q(v.ident)})]),\n" if not v.rty else
         f"    {t.name}::{v.ident}(x) => Value::Array(vec![Value::from({q(v.ident)}), x.to_val()]),\n") for v in t.variants)
    back = "".join(
        f"    {q(v.ident)} => Ok({t.name}::{v.ident}" + (f" {{ {named(v)[2]} }}" if v.fields is not None else "(crate::val::Val::from_val(crate::val::at(v, 1)?)?)" if v.rty else "") + "),\n"
        for v in t.variants)
    s += (f"impl crate::val::Val for {t.name} {{\n  fn to_val(&self) -> Value {{ match self {{\n{arms}  }} }}\n"
          f"  fn from_val(v: &Value) -> Result<Self, String> {{ match crate::val::at(v, 0)?.as_str().unwrap_or(\"\") {{\n{back}"
          f"    o => Err(format!(\"no variant {{}}\", o)),\n  }} }}\n}}\n")
    return s


def renamed(t, s):
    """The declaration under a name that is not an ordinary identifier."""
    if not t.rust:
        return s
    return s.replace("pub struct %s" % t.name, "pub struct " + t.rust).replace("pub enum %s" % t.name, "pub enum " + t.rust).replace("Ok(%s(" % t.name, "Ok(%s(" % t.rust) + "pub type %s = %s;\n" % (t.name, t.rust)


def gen_newtype(t):
    if t.how == "prim":
        s = f"#[derive(Debug, PartialEq, Clone, PrimitiveYaSerde)]\npub struct {t.name}(pub {t.base});\n"
        s += (f"impl crate::val::Val for {t.name} {{\n  fn to_val(&self) -> Value {{ self.0.to_val() }}\n"
              f"  fn from_val(v: &Value) -> Result<Self, String> {{ Ok({t.name}(crate::val::Val::from_val(v)?)) }}\n}}\n")
    elif t.how in ("hex", "hexbits"):
        body = "Some(Self(b))" if t.how == "hex" else "if b & !0x83 == 0 { Some(Self(b)) } else { None }"
        s = (f"#[derive(Debug, PartialEq, Clone, HexBinaryYaSerde)]\npub struct {t.name}(pub {t.base});\n"
             f"impl {t.name} {{ pub fn from_bits(b: {t.base}) -> Option<Self> {{ {body} }} }}\n"
             f"impl crate::val::Val for {t.name} {{\n  fn to_val(&self) -> Value {{ Value::from(format!(\"{{:02X}}\", self.0)) }}\n"
             f"  fn from_val(v: &Value) -> Result<Self, String> {{ Ok({t.name}({t.base}::from_str_radix(v.as_str().unwrap_or(\"\"), 16).map_err(|e| e.to_string())?)) }}\n}}\n")
    else:
        s = (f"#[derive(Debug, PartialEq, Clone, DefaultYaSerde)]\npub struct {t.name}(pub {t.base});\n"
             f"impl ::std::fmt::Display for {t.name} {{ fn fmt(&self, f: &mut ::std::fmt::Formatter<'_>) -> ::std::fmt::Result {{ write!(f, \"{{}}cm\", self.0) }} }}\n"
             f"impl ::std::str::FromStr for {t.name} {{ type Err = String; fn from_str(s: &str) -> Result<Self, String> {{ "
             f"s.strip_suffix(\"cm\").ok_or(\"no unit\".to_string())?.parse().map({t.name}).map_err(|_| \"bad length\".to_string()) }} }}\n"
             f"impl crate::val::Val for {t.name} {{\n  fn to_val(&self) -> Value {{ Value::from(self.to_string()) }}\n"
             f"  fn from_val(v: &Value) -> Result<Self, String> {{ v.as_str().unwrap_or(\"\").parse() }}\n}}\n")
    return s


HEAD = """// Generated by lib/rustgen.py from lib/catalogue.py. Do not edit.
#![allow(non_camel_case_types, non_snake_case, dead_code, unused_imports, clippy::all)]
use serde_json::Value;
use std::str::FromStr as _;
use yaserde::*;
use yaserde_derive::*;
use crate::custom::*;
use crate::val::Val as _;
"""


def de_only(c, t):
    return "hascustom" in t.tags or "rootflatde" in t.tags or t.name == "HcRest"


def gen_module(c, names=None):
    out, generics = [HEAD], set()
    for n in names or c.order:
        t = c.types[n]
        if t.kind == "struct":
            if t.generic:
                if t.generic not in generics:
                    generics.add(t.generic)
                    out.append(gen_struct(t, out, de_only(c, t)).replace(f"impl {t.generic} {{", "impl __X {{") )
                out.append(f"pub type {t.name} = {instance(t)};\n")
            else:
                s = renamed(t, gen_struct(t, out, de_only(c, t)))
                if t.module in MODULES:
                    s = shadowed(t, s)
                out.append(s)
            out.append(conv_struct(t))
        elif t.kind == "enum":
            out.append(renamed(t, gen_enum(t, de_only(c, t), generics, c.types)))
        elif t.kind == "new":
            out.append(renamed(t, gen_newtype(t)))
    return "\n".join(out)


def gen_dispatch(c):
    de, se = [], []
    for n in c.order:
        t = c.types[n]
        de.append(f"    {q(n)} => v.visit::<types::{n}>(),\n" if t.kind != "custom" else f"    {q(n)} => v.visit::<custom::{n}>(),\n")
        if t.kind != "custom" and not de_only(c, t):
            se.append(f"    {q(n)} => v.visit::<types::{n}>(),\n")
    return ("// Generated by lib/rustgen.py. Do not edit.\nuse crate::{custom, types};\nuse crate::run::{DeVisitor, SerVisitor};\n"
            "pub fn de<V: DeVisitor>(name: &str, v: V) -> V::Out {\n  match name {\n" + "".join(de) + "    _ => panic!(\"HARNESS unknown type {}\", name),\n  }\n}\n"
            "pub fn ser<V: SerVisitor>(name: &str, v: V) -> V::Out {\n  match name {\n" + "".join(se) + "    _ => panic!(\"HARNESS unknown type {}\", name),\n  }\n}\n")
