#!/bin/bash
# Regenerates the test certificates (they are committed; not needed by any check).
set -e
cd "$(dirname "$0")"
W=$(mktemp -d)
openssl ecparam -name prime256v1 -genkey -noout -out key.pem
cat > "$W/ca.cnf" <<E
[ca]
default_ca = d
[d]
database = $W/index
new_certs_dir = $W
serial = $W/serial
default_md = sha256
policy = p
unique_subject = no
copy_extensions = copy
rand_serial = yes
[p]
commonName = supplied
[root]
basicConstraints = critical,CA:TRUE
keyUsage = critical,keyCertSign,cRLSign
[leaf]
basicConstraints = CA:FALSE
E
touch "$W/index"
mk() { # name subject ext signer-cert signer-key own-key start end san
  openssl req -new -key "$6" -subj "/CN=$2" ${9:+-addext "subjectAltName=$9"} -out "$W/r.pem" 2>/dev/null
  local self=; [ "$4" = self ] && self="-selfsign" || self="-cert $4"
  openssl ca -batch -config "$W/ca.cnf" $self -keyfile "$5" -in "$W/r.pem" -extensions "$3" -startdate "$7" -enddate "$8" -notext -out "$1.pem" 2>/dev/null
}
A=20000101000000Z; B=20990101000000Z
for k in ca ca2 inter; do openssl ecparam -name prime256v1 -genkey -noout -out $W/$k.key; done
mk ca "Root One" root self $W/ca.key $W/ca.key $A $B
mk ca2 "Root Two" root self $W/ca2.key $W/ca2.key $A $B
mk inter_ca "Middle" root ca.pem $W/ca.key $W/inter.key $A $B
mk good host.test leaf ca.pem $W/ca.key key.pem $A $B DNS:host.test
mk cnonly host.test leaf ca.pem $W/ca.key key.pem $A $B
mk wrong other.test leaf ca.pem $W/ca.key key.pem $A $B DNS:other.test
mk wild "*.host.test" leaf ca.pem $W/ca.key key.pem $A $B "DNS:*.host.test"
mk multi many.test leaf ca.pem $W/ca.key key.pem $A $B DNS:one.test,DNS:host.test
mk sanother host.test leaf ca.pem $W/ca.key key.pem $A $B DNS:other.test
mk expired host.test leaf ca.pem $W/ca.key key.pem $A 20010101000000Z DNS:host.test
mk future host.test leaf ca.pem $W/ca.key key.pem 20900101000000Z $B DNS:host.test
mk foreign host.test leaf ca2.pem $W/ca2.key key.pem $A $B DNS:host.test
mk self host.test leaf self key.pem key.pem $A $B DNS:host.test
mk leaf2 host.test leaf inter_ca.pem $W/inter.key key.pem $A $B DNS:host.test
cat leaf2.pem inter_ca.pem > chain.pem
cp leaf2.pem broken.pem                                   # the intermediate is missing
mk byleaf0 host.test leaf good.pem key.pem key.pem $A $B DNS:host.test
cat byleaf0.pem good.pem > byleaf.pem                     # signed by a certificate that is no authority
cat ca2.pem ca.pem > both.pem
rm -f byleaf0.pem leaf2.pem inter_ca.pem
rm -rf "$W"
