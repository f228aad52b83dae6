#!/bin/bash
# regenerates data/tls (committed; run once): DER certificates and PKCS#8 keys for the TLS drivers
set -e
D=${1:-/verif/data/tls}; T=$(mktemp -d); cd "$T"
key() { # name alg
  case $2 in
    ec) openssl genpkey -algorithm EC -pkeyopt ec_paramgen_curve:P-256 -pkeyopt ec_param_enc:named_curve -out $1.key;;
    ec384) openssl genpkey -algorithm EC -pkeyopt ec_paramgen_curve:P-384 -pkeyopt ec_param_enc:named_curve -out $1.key;;
    rsa) openssl genpkey -algorithm RSA -pkeyopt rsa_keygen_bits:2048 -out $1.key;;
    ed) openssl genpkey -algorithm ED25519 -out $1.key;;
    sm2) openssl genpkey -algorithm EC -pkeyopt ec_paramgen_curve:SM2 -pkeyopt ec_param_enc:named_curve -out $1.key;;
  esac 2>/dev/null
}
ext() { # file kind san
  case $2 in
   ca) printf 'basicConstraints=critical,CA:TRUE\nkeyUsage=critical,keyCertSign,cRLSign\nsubjectKeyIdentifier=hash\n';;
   ee) printf 'basicConstraints=critical,CA:FALSE\nkeyUsage=critical,digitalSignature,keyEncipherment,keyAgreement\nsubjectKeyIdentifier=hash\nsubjectAltName=DNS:%s\n' $3;;
   sign) printf 'basicConstraints=critical,CA:FALSE\nkeyUsage=critical,digitalSignature\nsubjectKeyIdentifier=hash\nsubjectAltName=DNS:%s\n' $3;;
   enc) printf 'basicConstraints=critical,CA:FALSE\nkeyUsage=critical,keyEncipherment,dataEncipherment,keyAgreement\nsubjectKeyIdentifier=hash\nsubjectAltName=DNS:%s\n' $3;;
  esac > $1
}
mk() { # name alg issuer kind
  key $1 $2
  ext $1.ext $4 $1.example.com
  local dig=-sha256 o=""
  [ $2 = sm2 ] && { dig=-sm3; o="-sigopt distid:1234567812345678"; }
  [ $2 = ed ] && dig=""
  if [ $3 = self ]; then
    openssl req -new -key $1.key -subj "/O=verif/CN=$1" $dig ${o:+-sigopt distid:1234567812345678} -out $1.csr 2>/dev/null
    openssl x509 -req -in $1.csr ${o:+-vfyopt distid:1234567812345678} -signkey $1.key $dig $o -days 30000 -set_serial $RANDOM -extfile $1.ext -out $1.pem 2>/dev/null
  else
    openssl req -new -key $1.key -subj "/O=verif/CN=$1" $dig ${o:+-sigopt distid:1234567812345678} -out $1.csr 2>/dev/null
    openssl x509 -req -in $1.csr ${o:+-vfyopt distid:1234567812345678} -CA $3.pem -CAkey $3.key $dig $o -days 30000 -set_serial $RANDOM -extfile $1.ext -out $1.pem 2>/dev/null
  fi
  openssl x509 -in $1.pem -outform DER -out $D/$1.crt
  openssl pkcs8 -topk8 -nocrypt -in $1.key -outform DER -out $D/$1.key 2>/dev/null || openssl pkey -in $1.key -outform DER -out $D/$1.key
}
mkdir -p $D
for a in ec rsa; do
 mk ${a}_ca $a self ca; mk ${a}_int $a ${a}_ca ca; mk ${a}_srv $a ${a}_int ee; mk ${a}_cli $a ${a}_int ee
done
mk ed_ca ed self ca; mk ed_srv ed ed_ca ee; mk ed_cli ed ed_ca ee
mk ec384_srv ec384 ec_int ee
mk evil_ca ec self ca; mk evil_srv ec evil_ca ee; mk evil_cli ec evil_ca ee
mk sm2_ca sm2 self ca; for r in srv cli; do mk sm2_${r}_sign sm2 sm2_ca sign; mk sm2_${r}_enc sm2 sm2_ca enc; done
rm -rf "$T"
ls -l $D | awk '{print $5,$9}' | tr '\n' ' '
