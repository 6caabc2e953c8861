#!/usr/bin/env python3
"""Copies the call filters and call tables of the node's runtime into wrap/runtime-items/.

runtime/frequency/src/lib.rs as a whole needs crates that are not available offline. This cuts it
into top-level items and keeps those that do not depend on them: structs, functions and trait
implementations other than the pallet configurations. Their text is unchanged, except that a
`feature = "..."` condition is replaced by its truth value for the network being built:
testnet.rs (feature `frequency` off) and mainnet.rs (feature `frequency` on).
The harness crate `world` supplies the runtime type they refer to."""
import os
import re
import sys

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
# a kept item must not mention any of these
DENY = re.compile(r"\b(cumulus_\w+|parachain_info|sp_version|SessionKeys|Executive|AuraId|opaque|benches|frame_executive|"
                  r"polkadot_runtime_common|NativeVersion|RuntimeVersion|WASM_BINARY|UncheckedExtrinsic|xcm\w*)\b")
USES = re.compile(r"^(?:pub )?use (?:pallet_(?:msa|handles|schemas|messages|stateful_storage|capacity|time_release|"
                  r"frequency_tx_payment|passkey|utility|balances)|common_primitives|common_runtime)\b")


def items(src):
    """Splits Rust source into top-level items (leading attributes and comments belong to the item)."""
    out, depth, start, i, n = [], 0, 0, 0, len(src)
    while i < n:
        c = src[i]
        if src.startswith("//", i):
            i = src.find("\n", i)
            i = n if i < 0 else i + 1
            continue
        if src.startswith("/*", i):
            d, i = 1, i + 2
            while i < n and d:
                if src.startswith("/*", i):
                    d, i = d + 1, i + 2
                elif src.startswith("*/", i):
                    d, i = d - 1, i + 2
                else:
                    i += 1
            continue
        m = re.compile(r'b?r(#*)"').match(src, i)
        if m and (i == 0 or not (src[i - 1].isalnum() or src[i - 1] == "_")):
            end = '"' + m.group(1)
            i = src.find(end, m.end()) + len(end)
            continue
        if c == '"':
            i += 1
            while src[i] != '"':
                i += 2 if src[i] == "\\" else 1
            i += 1
            continue
        if c == "'":
            m = re.compile(r"'(\\.[^']*|[^'\\])'").match(src, i)
            i = m.end() if m else i + 1
            continue
        if c in "([{":
            depth += 1
        elif c in ")]}":
            depth -= 1
            if depth == 0 and c == "}":
                # a struct expression of a `use {...};` ends with its semicolon
                m = re.compile(r"\s*;").match(src, i + 1)
                if m:
                    i = m.end() - 1
                out.append(src[start:i + 1])
                start = i + 1
        elif c == ";" and depth == 0:
            out.append(src[start:i + 1])
            start = i + 1
        i += 1
    return out


def head(item):
    """The item without leading comments and attributes."""
    s = item
    while True:
        s = s.lstrip()
        if s.startswith("//"):
            s = s[s.find("\n") + 1:] if "\n" in s else ""
        elif s.startswith("/*"):
            s = s[s.find("*/") + 2:]
        elif s.startswith("#"):
            d, j = 0, 0
            for j, c in enumerate(s):
                d += (c == "[") - (c == "]")
                if c == "]" and d == 0:
                    break
            s = s[j + 1:]
        else:
            return s


def keep(item):
    h = head(item)
    if re.match(r"(pub )?use ", h):
        return bool(USES.match(re.sub(r"^pub\([^)]*\) ", "", h))) and not re.match(r"pub use pallet_\w+;", h)
    if re.match(r"(pub )?type SignedExtra\b", h):
        return True
    if re.match(r"(pub )?type \w+(<[^=]*>)? =[^;]*\b(Ensure[A-Z]\w*|EitherOf\w*|NeverEnsureOrigin)\b", h):
        return True
    if not re.match(r"(pub(\([^)]*\))? )?(struct|enum|fn|trait|impl|const fn|macro_rules)\b", h):
        return False
    if DENY.search(item):
        return False
    if re.match(r"impl[^{]* for Runtime\b", h) or re.match(r"impl\s+Runtime\b", h):
        return False
    return True


def features(text, on):
    return re.sub(r'\bfeature\s*=\s*"([^"]*)"', lambda m: "all()" if m.group(1) in on else "any()", text)


def origins(src):
    """The authorities the runtime's configuration demands, by pallet."""
    out = []
    for i in items(src):
        m = re.match(r"impl\s+(\w+)::Config(?:<([\w:]+)>)?\s+for\s+Runtime\b", head(i))
        if not m:
            continue
        body = re.sub(r"//[^\n]*", "", head(i))
        types = [(a, n, v) for a, n, v in re.findall(r"((?:#\[cfg[^\n]*\]\s*)*)type\s+(\w*Origin)\s*=\s*([^;]+);", body)
                 if n not in ("RuntimeOrigin", "PalletsOrigin") and not DENY.search(v)]
        if types:
            name = m.group(1) + ("_" + m.group(2).split("::")[-1].lower() if m.group(2) else "")
            out.append(f"\tpub mod {name} {{\n\t\tuse super::super::*;\n" + "".join(
                f"\t\t{a}pub type {n} = {' '.join(v.replace('Self::', '').split())};\n" for a, n, v in types) + "\t}\n")
    return "pub mod origins {\n" + "".join(out) + "}"


def main():
    with open(os.path.join(REPO, "runtime/frequency/src/lib.rs"), encoding="utf-8") as f:
        src = f.read()
    src = re.sub(r"\A(\s*(//[^\n]*\n|#!\[[^\]]*\]\s*))*", "", src)
    kept = [i.strip("\n") for i in items(src) if keep(i)]
    kept = [re.sub(r"^(\s*//!.*\n)+", "", k) for k in kept]
    out = os.path.join(ROOT, "wrap", "runtime-items")
    os.makedirs(out, exist_ok=True)
    for name, on in (("testnet.rs", {"std", "frequency-testnet"}), ("mainnet.rs", {"std", "frequency"})):
        # both variants are compiled in one crate: implementations for shared types only once
        own = set(re.findall(r"\b(?:struct|enum) (\w+)", "\n".join(head(k) for k in kept)))
        part = [k for k in kept if name == "testnet.rs" or not head(k).startswith("impl")
                or re.match(r"impl[^{]*?(?:for )?(\w+)\s*\{", head(k)).group(1) in own]
        text = features("\n\n".join(part + [origins(src)]), on) + "\n"
        p = os.path.join(out, name)
        if not os.path.exists(p) or open(p, encoding="utf-8").read() != text:
            with open(p, "w", encoding="utf-8") as f:
                f.write(text)
    # the query interfaces of the repository's pallets
    apis = []
    for i in items(src):
        h = head(i)
        if h.startswith("impl_runtime_apis!"):
            body = h[h.index("{") + 1:h.rindex("}")]
            apis += [x.strip("\n") for x in items(body)
                     if re.match(r"impl\s+(?:pallet_(?:messages|schemas|msa|stateful_storage|handles|frequency_tx_payment)_runtime_api|system_runtime_api|frame_system_rpc_runtime_api)::", head(x))]
    uses = [k for k in kept if re.match(r"(pub )?use ", head(k))]
    text = features("\n\n".join(uses) + "\n\nsp_api::impl_runtime_apis! {\n" + "\n\n".join(apis) + "\n}\n", {"std", "frequency-testnet"})
    p = os.path.join(out, "apis.rs")
    if not os.path.exists(p) or open(p, encoding="utf-8").read() != text:
        with open(p, "w", encoding="utf-8") as f:
            f.write(text)


if __name__ == "__main__":
    main()
