From a257c419d908a027059c61b1fd439b8a27da2dc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:04:37 +0000
Subject: [PATCH 01/35] fix: keygen exports the WIF of the compressed key its
 address was derived from

---
 bit/keygen.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/bit/keygen.py b/bit/keygen.py
index c26f3da..1aaf939 100644
--- a/bit/keygen.py
+++ b/bit/keygen.py
@@ -12,7 +12,7 @@ from bit.format import bytes_to_wif, public_key_to_address
 def generate_key_address_pair():  # pragma: no cover
     private_key = ECPrivateKey()
     address = public_key_to_address(private_key.public_key.format())
-    return bytes_to_wif(private_key.secret), address
+    return bytes_to_wif(private_key.secret, compressed=True), address
 
 
 def generate_matching_address(prefix, cores='all'):  # pragma: no cover
@@ -60,7 +60,7 @@ def generate_matching_address(prefix, cores='all'):  # pragma: no cover
         sys.stdout.flush()
 
     private_key, address = queue.get()
-    print('\n\n' 'WIF: {}\n' 'Address: {}'.format(bytes_to_wif(private_key), address))
+    print('\n\n' 'WIF: {}\n' 'Address: {}'.format(bytes_to_wif(private_key, compressed=True), address))
 
 
 def generate_key_address_pairs(prefix, counter, match, queue):  # pragma: no cover
-- 
2.43.0


From d24105104068a162c4ec9e93135032d19bf6b6c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:04:37 +0000
Subject: [PATCH 02/35] fix: RPC balance neither rounds to 9 digits nor lowers
 the global decimal precision

---
 bit/network/services.py | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/bit/network/services.py b/bit/network/services.py
index 9578c63..e99b9b0 100644
--- a/bit/network/services.py
+++ b/bit/network/services.py
@@ -1,9 +1,7 @@
 import requests
 import json
 import logging
-from decimal import Decimal, getcontext
 
-from bit.constants import BTC
 from bit.network import currency_to_satoshi
 from bit.network.meta import Unspent
 from bit.exceptions import BitcoinNodeException, ExcessiveAddress
@@ -31,9 +29,7 @@ class RPCHost:
         return RPCMethod(rpc_method, self)
 
     def get_balance(self, address):
-        getcontext().prec = len(str(BTC))
-        b = Decimal(self.getreceivedbyaddress(address, 0))
-        return int(b * BTC)
+        return currency_to_satoshi(self.getreceivedbyaddress(address, 0), "btc")
 
     def get_balance_testnet(self, address):
         return self.get_balance(address)
-- 
2.43.0


From 8a7d7c0b1513a12290f0107d947403317d19e77d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:04:37 +0000
Subject: [PATCH 03/35] fix: push OP_RETURN data of 76 to 80 bytes with
 OP_PUSHDATA1

---
 bit/transaction.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bit/transaction.py b/bit/transaction.py
index cfdc1c2..c732899 100644
--- a/bit/transaction.py
+++ b/bit/transaction.py
@@ -482,7 +482,7 @@ def construct_outputs(outputs):
 
         # Blockchain storage
         else:
-            script_pubkey = OP_RETURN + len(dest).to_bytes(1, byteorder='little') + dest
+            script_pubkey = OP_RETURN + script_push(len(dest)) + dest
 
             amount = b'\x00\x00\x00\x00\x00\x00\x00\x00'
 
-- 
2.43.0


From d9da7185af4041a8908ab69404c1a3904798ef7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:04:37 +0000
Subject: [PATCH 04/35] fix: a Bitcore balance error status lets NetworkAPI try
 the next service

---
 bit/network/services.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/bit/network/services.py b/bit/network/services.py
index e99b9b0..1dcde7c 100644
--- a/bit/network/services.py
+++ b/bit/network/services.py
@@ -610,13 +610,15 @@ class BitcoreAPI(InsightAPI):
     @classmethod
     def get_balance(cls, address):
         r = requests.get(cls.MAIN_BALANCE_API.format(address), timeout=DEFAULT_TIMEOUT)
-        r.raise_for_status()  # pragma: no cover
+        if r.status_code != 200:  # pragma: no cover
+            raise ConnectionError
         return r.json()['balance']
 
     @classmethod
     def get_balance_testnet(cls, address):
         r = requests.get(cls.TEST_BALANCE_API.format(address), timeout=DEFAULT_TIMEOUT)
-        r.raise_for_status()  # pragma: no cover
+        if r.status_code != 200:  # pragma: no cover
+            raise ConnectionError
         return r.json()['balance']
 
     @classmethod
-- 
2.43.0


From 8c07711078d2a23d0f48a6ed5265c71d6193c8cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:04:37 +0000
Subject: [PATCH 05/35] fix: an error status on a later result page lets
 NetworkAPI try the next service

---
 bit/network/services.py | 29 ++++++++++++++++++++++-------
 1 file changed, 22 insertions(+), 7 deletions(-)

diff --git a/bit/network/services.py b/bit/network/services.py
index 1dcde7c..93f5d36 100644
--- a/bit/network/services.py
+++ b/bit/network/services.py
@@ -384,7 +384,10 @@ class BlockstreamAPI:
         while total_txs > 0:
             transactions.extend(tx['txid'] for tx in response)
 
-            response = requests.get(endpoint.format(address, transactions[-1]), timeout=DEFAULT_TIMEOUT).json()
+            r = requests.get(endpoint.format(address, transactions[-1]), timeout=DEFAULT_TIMEOUT)
+            if r.status_code != 200:  # pragma: no cover
+                raise ConnectionError
+            response = r.json()
             total_txs = len(response)
 
         transactions.extend(unconfirmed)
@@ -411,7 +414,10 @@ class BlockstreamAPI:
         while total_txs > 0:
             transactions.extend(tx['txid'] for tx in response)
 
-            response = requests.get(endpoint.format(address, transactions[-1]), timeout=DEFAULT_TIMEOUT).json()
+            r = requests.get(endpoint.format(address, transactions[-1]), timeout=DEFAULT_TIMEOUT)
+            if r.status_code != 200:  # pragma: no cover
+                raise ConnectionError
+            response = r.json()
             total_txs = len(response)
 
         return transactions
@@ -601,9 +607,12 @@ class BitcoreAPI(InsightAPI):
                 )
                 for tx in response
             )
-            response = requests.get(
+            r = requests.get(
                 endpoint.format(address) + "&since={}".format(response[-1]['_id']), timeout=DEFAULT_TIMEOUT
-            ).json()
+            )
+            if r.status_code != 200:  # pragma: no cover
+                raise ConnectionError
+            response = r.json()
 
         return unspents
 
@@ -644,9 +653,12 @@ class BitcoreAPI(InsightAPI):
                 )
                 for tx in response
             )
-            response = requests.get(
+            r = requests.get(
                 endpoint.format(address) + "&since={}".format(response[-1]['_id']), timeout=DEFAULT_TIMEOUT
-            ).json()
+            )
+            if r.status_code != 200:  # pragma: no cover
+                raise ConnectionError
+            response = r.json()
 
         return unspents
 
@@ -696,7 +708,10 @@ class BlockchainAPI:
             total_txs -= txs_per_page
             offset += txs_per_page
             payload['offset'] = str(offset)
-            response = requests.get(endpoint.format(address), params=payload, timeout=DEFAULT_TIMEOUT).json()
+            r = requests.get(endpoint.format(address), params=payload, timeout=DEFAULT_TIMEOUT)
+            if r.status_code != 200:  # pragma: no cover
+                raise ConnectionError
+            response = r.json()
 
         return transactions
 
-- 
2.43.0


From d6c3b2d7f68f32469390220bc3c882afdd287d74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:05:07 +0000
Subject: [PATCH 06/35] fix: Blockchair unspents of an unknown address are an
 empty list, not None

---
 bit/network/services.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/bit/network/services.py b/bit/network/services.py
index 93f5d36..c8e1ad3 100644
--- a/bit/network/services.py
+++ b/bit/network/services.py
@@ -224,7 +224,7 @@ class BlockchairAPI:
 
         r = requests.get(endpoint.format(address), params=payload, timeout=DEFAULT_TIMEOUT)
         if r.status_code == 404:  # pragma: no cover
-            return None
+            return []
         if r.status_code != 200:  # pragma: no cover
             raise ConnectionError
         response = r.json()
@@ -267,7 +267,7 @@ class BlockchairAPI:
 
         r = requests.get(endpoint.format(address), params=payload, timeout=DEFAULT_TIMEOUT)
         if r.status_code == 404:  # pragma: no cover
-            return None
+            return []
         if r.status_code != 200:  # pragma: no cover
             raise ConnectionError
         response = r.json()
-- 
2.43.0


From 56422ff9bad901ad71abd9d6f847ef159fe45cbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:05:07 +0000
Subject: [PATCH 07/35] fix: verifying a malformed signature returns False as
 documented instead of raising

---
 bit/format.py | 6 +++++-
 bit/wallet.py | 6 +++++-
 2 files changed, 10 insertions(+), 2 deletions(-)

diff --git a/bit/format.py b/bit/format.py
index 1f6fac4..e3f103d 100644
--- a/bit/format.py
+++ b/bit/format.py
@@ -33,7 +33,11 @@ def verify_sig(signature, data, public_key):
     :type public_key: ``bytes``
     :returns: ``True`` if all checks pass, ``False`` otherwise.
     """
-    return _vs(signature, data, public_key)
+    try:
+        return _vs(signature, data, public_key)
+    except ValueError:
+        # Malformed signature or public key.
+        return False
 
 
 def address_to_public_key_hash(address):
diff --git a/bit/wallet.py b/bit/wallet.py
index 03ee956..b526412 100644
--- a/bit/wallet.py
+++ b/bit/wallet.py
@@ -104,7 +104,11 @@ class BaseKey:
         :type data: ``bytes``
         :rtype: ``bool``
         """
-        return self._pk.public_key.verify(signature, data)
+        try:
+            return self._pk.public_key.verify(signature, data)
+        except ValueError:
+            # Malformed signature.
+            return False
 
     def pub_to_hex(self):
         """:rtype: ``str``"""
-- 
2.43.0


From afb59e59ea851add2d274f125921ae68982e5314 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:05:07 +0000
Subject: [PATCH 08/35] fix: refuse a Base58Check address whose hash is not 20
 bytes

---
 bit/format.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/bit/format.py b/bit/format.py
index e3f103d..6821bda 100644
--- a/bit/format.py
+++ b/bit/format.py
@@ -49,7 +49,10 @@ def address_to_public_key_hash(address):
 def get_version(address):
     version, _ = bech32_decode(address)
     if version is None:
-        version = b58decode_check(address)[:1]
+        decoded = b58decode_check(address)
+        if len(decoded) != 21:
+            raise ValueError('{} is an invalid length for an address.'.format(len(decoded)))
+        version = decoded[:1]
     if version in (MAIN_PUBKEY_HASH, MAIN_SCRIPT_HASH) or version in BECH32_MAIN_VERSION_SET:
         return 'main'
     elif version in (TEST_PUBKEY_HASH, TEST_SCRIPT_HASH) or version in BECH32_TEST_VERSION_SET:
-- 
2.43.0


From 38ae1c8b092479b290e0f3a36107d7f20c819021 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:05:07 +0000
Subject: [PATCH 09/35] fix: raise ValueError for a Bech32 address with an
 invalid witness program

---
 bit/transaction.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/bit/transaction.py b/bit/transaction.py
index c732899..c72fe2d 100644
--- a/bit/transaction.py
+++ b/bit/transaction.py
@@ -460,6 +460,8 @@ def address_to_scriptpubkey(address):
         version = b58decode_check(address)[:1]
     except ValueError:
         witver, data = segwit_decode(address)
+        if witver is None:
+            raise ValueError('{} is not a valid segwit address.'.format(address)) from None
         return segwit_scriptpubkey(witver, data)
 
     if version == MAIN_PUBKEY_HASH or version == TEST_PUBKEY_HASH:
-- 
2.43.0


From aa8789b36a4551b5263b188d56785b73c09c4b11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:05:07 +0000
Subject: [PATCH 10/35] fix: signing a multisig input twice with the same key
 keeps its witness well-formed

---
 bit/transaction.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/bit/transaction.py b/bit/transaction.py
index c72fe2d..e2602be 100644
--- a/bit/transaction.py
+++ b/bit/transaction.py
@@ -653,9 +653,6 @@ def sign_tx(private_key, tx, *, unspents):
             witness_count = 3
             if input_script_field[i]:
                 sig_list = get_signatures_from_script(input_script_field[i])
-                # Bitcoin Core convention: Every missing signature is denoted
-                # by 0x00. Only used for already partially-signed scriptSigs:
-                script_blob += b'\x00' * (private_key.m - len(sig_list) - 1)
                 # Total number of witness items when partially or fully signed:
                 witness_count = private_key.m + 2
                 # For a partially signed input make a dictionary containing
@@ -671,6 +668,11 @@ def sign_tx(private_key, tx, *, unspents):
 
             sigs[public_key] = signature
 
+            if input_script_field[i]:
+                # Bitcoin Core convention: Every missing signature is denoted
+                # by 0x00. Only used for already partially-signed scriptSigs:
+                script_blob += b'\x00' * (private_key.m - len(sigs))
+
             witness = b''
             # Sort ingthe signatures according to the public-key list:
             for pub in private_key.public_keys:
-- 
2.43.0


From f7f50dffdbdafb013e1ec8e2080ba5fcef71b286 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:05:07 +0000
Subject: [PATCH 11/35] fix: prepare_transaction accepts a message

---
 bit/transaction.py | 4 ++++
 bit/wallet.py      | 8 ++++----
 2 files changed, 8 insertions(+), 4 deletions(-)

diff --git a/bit/transaction.py b/bit/transaction.py
index e2602be..e844ef5 100644
--- a/bit/transaction.py
+++ b/bit/transaction.py
@@ -484,6 +484,10 @@ def construct_outputs(outputs):
 
         # Blockchain storage
         else:
+            # Offline transaction data stores messages as hex.
+            if isinstance(dest, str):
+                dest = hex_to_bytes(dest)
+
             script_pubkey = OP_RETURN + script_push(len(dest)) + dest
 
             amount = b'\x00\x00\x00\x00\x00\x00\x00\x00'
diff --git a/bit/wallet.py b/bit/wallet.py
index b526412..1e4bdc0 100644
--- a/bit/wallet.py
+++ b/bit/wallet.py
@@ -459,7 +459,7 @@ class PrivateKey(BaseKey):
 
         data = {'unspents': [unspent.to_dict() for unspent in unspents], 'outputs': outputs}
 
-        return json.dumps(data, separators=(',', ':'))
+        return json.dumps(data, separators=(',', ':'), default=bytes_to_hex)
 
     def sign_transaction(self, tx_data, unspents=None):  # pragma: no cover
         """Creates a signed P2PKH transaction using previously prepared
@@ -858,7 +858,7 @@ class PrivateKeyTestnet(BaseKey):
 
         data = {'unspents': [unspent.to_dict() for unspent in unspents], 'outputs': outputs}
 
-        return json.dumps(data, separators=(',', ':'))
+        return json.dumps(data, separators=(',', ':'), default=bytes_to_hex)
 
     def sign_transaction(self, tx_data, unspents=None):  # pragma: no cover
         """Creates a signed P2PKH transaction using previously prepared
@@ -1229,7 +1229,7 @@ class MultiSig:
 
         data = {'unspents': [unspent.to_dict() for unspent in unspents], 'outputs': outputs}
 
-        return json.dumps(data, separators=(',', ':'))
+        return json.dumps(data, separators=(',', ':'), default=bytes_to_hex)
 
     def sign_transaction(self, tx_data, unspents=None):  # pragma: no cover
         """Creates a signed P2SH transaction using previously prepared
@@ -1557,7 +1557,7 @@ class MultiSigTestnet:
 
         data = {'unspents': [unspent.to_dict() for unspent in unspents], 'outputs': outputs}
 
-        return json.dumps(data, separators=(',', ':'))
+        return json.dumps(data, separators=(',', ':'), default=bytes_to_hex)
 
     def sign_transaction(self, tx_data, unspents=None):  # pragma: no cover
         """Creates a signed P2SH transaction using previously prepared
-- 
2.43.0


From 16650c8d55b346469e140664383e8e25dff81ec3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:06:23 +0000
Subject: [PATCH 12/35] fix: estimate the fee of message outputs from their
 real size

---
 bit/transaction.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bit/transaction.py b/bit/transaction.py
index e844ef5..8b23125 100644
--- a/bit/transaction.py
+++ b/bit/transaction.py
@@ -419,7 +419,7 @@ def sanitize_tx_data(
     # Include return address in output count.
     # Calculate output size as a list (including return address).
     output_size = [len(address_to_scriptpubkey(o[0])) + 9 for o in outputs]
-    output_size.append(len(messages) * (MESSAGE_LIMIT + 9))
+    output_size.append(sum(len(OP_RETURN + script_push(len(m)) + m) + 9 for m, _ in messages))
     output_size.append(len(address_to_scriptpubkey(leftover)) + 9)
     sum_outputs = sum(out[1] for out in outputs)
 
-- 
2.43.0


From e89e5bd7c64a11ab8e77b8fa0ae34b17a274cedf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:06:23 +0000
Subject: [PATCH 13/35] fix: Blockstream testnet unspents raise
 ExcessiveAddress rather than report no funds

---
 bit/network/services.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/bit/network/services.py b/bit/network/services.py
index c8e1ad3..bfd66b9 100644
--- a/bit/network/services.py
+++ b/bit/network/services.py
@@ -482,7 +482,10 @@ class BlockstreamAPI:
 
         r = requests.get(cls.TEST_UNSPENT_API.format(address), timeout=DEFAULT_TIMEOUT)
 
-        if r.status_code == 400:  # pragma: no cover
+        #! BlockstreamAPI blocks addresses with "too many" UTXOs.
+        if r.status_code == 400 and r.text == "Too many history entries":
+            raise ExcessiveAddress
+        elif r.status_code == 400:  # pragma: no cover
             return []
         elif r.status_code != 200:  # pragma: no cover
             raise ConnectionError
-- 
2.43.0


From 5df108856ad0635aead879b1428825e3cfe51a1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:06:23 +0000
Subject: [PATCH 14/35] fix: prepare_transaction marks fetched unspents as
 Segwit or uncompressed

---
 bit/wallet.py | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/bit/wallet.py b/bit/wallet.py
index 1e4bdc0..93e1255 100644
--- a/bit/wallet.py
+++ b/bit/wallet.py
@@ -22,7 +22,7 @@ from bit.transaction import (
     deserialize,
     address_to_scriptpubkey,
 )
-from bit.constants import OP_0, OP_PUSH_20, OP_PUSH_32
+from bit.constants import OP_0, OP_HASH160, OP_PUSH_20, OP_PUSH_32
 
 from bit.utils import hex_to_bytes, bytes_to_hex, int_to_varint
 
@@ -42,6 +42,14 @@ def wif_to_key(wif):
             return PrivateKeyTestnet(wif)
 
 
+def address_to_unspent_type(address, compressed=True):
+    """Returns the type of the unspents a single private key can spend from an
+    address: the nested Segwit or the legacy P2PKH type."""
+    if address_to_scriptpubkey(address).startswith(OP_HASH160):
+        return 'np2wkh'
+    return 'p2pkh' if compressed else 'p2pkh-uncompressed'
+
+
 class BaseKey:
     """This class represents a point on the elliptic curve secp256k1 and
     provides all necessary cryptographic functionality. You shouldn't use
@@ -445,7 +453,7 @@ class PrivateKey(BaseKey):
         :rtype: ``str``
         """
         unspents, outputs = sanitize_tx_data(
-            unspents or NetworkAPI.get_unspent(address),
+            unspents or [u.set_type(address_to_unspent_type(address, compressed)) for u in NetworkAPI.get_unspent(address)],
             outputs,
             fee or get_fee_cached(),
             leftover or address,
@@ -844,7 +852,7 @@ class PrivateKeyTestnet(BaseKey):
         :rtype: ``str``
         """
         unspents, outputs = sanitize_tx_data(
-            unspents or NetworkAPI.get_unspent_testnet(address),
+            unspents or [u.set_type(address_to_unspent_type(address, compressed)) for u in NetworkAPI.get_unspent_testnet(address)],
             outputs,
             fee or get_fee_cached(),
             leftover or address,
-- 
2.43.0


From 58dee46c54c34eb3e9cabf765dfc18cdc78537ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:08:52 +0000
Subject: [PATCH 15/35] fix: coin selection does not hit the recursion limit
 with many unspents

---
 bit/transaction.py | 65 +++++++++++++++++++---------------------------
 1 file changed, 26 insertions(+), 39 deletions(-)

diff --git a/bit/transaction.py b/bit/transaction.py
index 8b23125..e044d5f 100644
--- a/bit/transaction.py
+++ b/bit/transaction.py
@@ -237,7 +237,6 @@ def select_coins(target, fee, output_size, min_change, *, absolute_fee=False, co
     def branch_and_bound(d, selected_coins, effective_value, target, fee, sorted_unspents):  # pragma: no cover
 
         nonlocal COST_OF_OVERHEAD, BNB_TRIES
-        BNB_TRIES -= 1
         COST_PER_INPUT = 148 * fee  # Just typical estimate values
         COST_PER_OUTPUT = 34 * fee
 
@@ -250,49 +249,37 @@ def select_coins(target, fee, output_size, min_change, *, absolute_fee=False, co
         # perfect match:
         # match_range += int(0.1 * fee * sum(u.vsize for u in selected_coins))
 
-        # Check for solution and cut criteria:
-        if effective_value > target_to_match + match_range:
-            return []
-        elif effective_value >= target_to_match:
-            return selected_coins
-        elif BNB_TRIES <= 0:
-            return []
-        elif d >= len(sorted_unspents):
-            return []
-        else:
-            # Randomly explore next branch:
-            binary_random = randint(0, 1)
-            if binary_random:
-                # Explore inclusion branch first, else omission branch:
-                effective_value_new = effective_value + sorted_unspents[d].amount - fee * sorted_unspents[d].vsize
-
-                with_this = branch_and_bound(
-                    d + 1, selected_coins + [sorted_unspents[d]], effective_value_new, target, fee, sorted_unspents
-                )
-
-                if with_this != []:
-                    return with_this
-                else:
-                    without_this = branch_and_bound(
-                        d + 1, selected_coins, effective_value, target, fee, sorted_unspents
-                    )
+        # Branches left to explore, the next one last. An explicit stack is not
+        # bounded by the recursion limit, so any number of unspents will do:
+        branches = [(d, selected_coins, effective_value)]
 
-                    return without_this
+        while branches:
+            d, selected_coins, effective_value = branches.pop()
+            BNB_TRIES -= 1
 
+            # Check for solution and cut criteria:
+            if effective_value > target_to_match + match_range:
+                continue
+            elif effective_value >= target_to_match:
+                return selected_coins
+            elif BNB_TRIES <= 0:
+                return []
+            elif d >= len(sorted_unspents):
+                continue
             else:
-                # As above but explore omission branch first:
-                without_this = branch_and_bound(d + 1, selected_coins, effective_value, target, fee, sorted_unspents)
-
-                if without_this != []:
-                    return without_this
+                effective_value_new = effective_value + sorted_unspents[d].amount - fee * sorted_unspents[d].vsize
+                with_this = (d + 1, selected_coins + [sorted_unspents[d]], effective_value_new)
+                without_this = (d + 1, selected_coins, effective_value)
+
+                # Randomly explore next branch:
+                binary_random = randint(0, 1)
+                if binary_random:
+                    # Explore inclusion branch first, else omission branch:
+                    branches += [without_this, with_this]
                 else:
-                    effective_value_new = effective_value + sorted_unspents[d].amount - fee * sorted_unspents[d].vsize
-
-                    with_this = branch_and_bound(
-                        d + 1, selected_coins + [sorted_unspents[d]], effective_value_new, target, fee, sorted_unspents
-                    )
+                    branches += [with_this, without_this]
 
-                    return with_this
+        return []
 
     sorted_unspents = sorted(unspents, key=lambda u: u.amount, reverse=True)
     selected_coins = []
-- 
2.43.0


From 5d81e50922b44fba246ac172de2257e4bc841fbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:32:47 +0000
Subject: [PATCH 16/35] fix: coin selection without combining is not starved by
 uneconomical unspents

Single Random Draw adds UTXOs in random order until they pay for the outputs
and the fee. UTXOs worth less than the fee for spending them lower what is
left, so drawing them first raised InsufficientFunds, depending on the order,
although the other UTXOs suffice. Draw them last.
---
 bit/transaction.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/bit/transaction.py b/bit/transaction.py
index e044d5f..1506d6a 100644
--- a/bit/transaction.py
+++ b/bit/transaction.py
@@ -300,6 +300,10 @@ def select_coins(target, fee, output_size, min_change, *, absolute_fee=False, co
             # To have a deterministic way of inserting inputs when
             # consolidating, we only shuffle the unspents otherwise.
             shuffle(unspents)
+            if not absolute_fee:
+                # UTXOs costing more to spend than they are worth come last, so
+                # that they cannot use up the funds needed for the target.
+                unspents.sort(key=lambda u: u.amount <= fee * u.vsize)
         while unspents:
             selected_coins.append(unspents.pop(0))
             estimated_fee = estimate_tx_fee(
-- 
2.43.0


From 1a4cdb8f79c96cfc5068523ce1e389dab59b8a6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:56:59 +0000
Subject: [PATCH 17/35] fix: coin selection does not drop unspents from the
 caller's list

---
 bit/transaction.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bit/transaction.py b/bit/transaction.py
index 1506d6a..e4e044a 100644
--- a/bit/transaction.py
+++ b/bit/transaction.py
@@ -415,7 +415,7 @@ def sanitize_tx_data(
     sum_outputs = sum(out[1] for out in outputs)
 
     # Use Branch-and-Bound for coin selection:
-    unspents[:], remaining = select_coins(
+    unspents, remaining = select_coins(
         sum_outputs,
         fee,
         output_size,
-- 
2.43.0


From f2f02a14e91a6800f1c8690a69a4aa808b5beae9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:57:18 +0000
Subject: [PATCH 18/35] fix: opting in for replace-by-fee does not alter the
 caller's unspents

---
 bit/transaction.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/bit/transaction.py b/bit/transaction.py
index e4e044a..c9fdcb9 100644
--- a/bit/transaction.py
+++ b/bit/transaction.py
@@ -1,5 +1,6 @@
 import logging
 from collections import namedtuple
+from copy import copy
 from itertools import islice
 import math
 import re
@@ -426,6 +427,8 @@ def sanitize_tx_data(
     )
 
     if replace_by_fee:
+        # Opt in with copies: other transactions may use the same unspents.
+        unspents = [copy(unspent) for unspent in unspents]
         for unspent in unspents:
             unspent.opt_in_for_RBF()
 
-- 
2.43.0


From 732b35e1b6a508334242ad34e0b507aca542e52b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:57:51 +0000
Subject: [PATCH 19/35] fix: a failed refresh leaves a key's unspents and
 transactions as they were

---
 bit/wallet.py | 40 ++++++++++++++++++++++++----------------
 1 file changed, 24 insertions(+), 16 deletions(-)

diff --git a/bit/wallet.py b/bit/wallet.py
index 93e1255..1994149 100644
--- a/bit/wallet.py
+++ b/bit/wallet.py
@@ -243,14 +243,15 @@ class PrivateKey(BaseKey):
 
         :rtype: ``list`` of :class:`~bit.network.meta.Unspent`
         """
-        self.unspents[:] = list(
+        unspents = list(
             map(
                 lambda u: u.set_type('p2pkh' if self.is_compressed() else 'p2pkh-uncompressed'),
                 NetworkAPI.get_unspent(self.address),
             )
         )
         if self.segwit_address:
-            self.unspents += list(map(lambda u: u.set_type('np2wkh'), NetworkAPI.get_unspent(self.segwit_address)))
+            unspents += list(map(lambda u: u.set_type('np2wkh'), NetworkAPI.get_unspent(self.segwit_address)))
+        self.unspents[:] = unspents
         self.balance = sum(unspent.amount for unspent in self.unspents)
         return self.unspents
 
@@ -259,9 +260,10 @@ class PrivateKey(BaseKey):
 
         :rtype: ``list`` of ``str`` transaction IDs
         """
-        self.transactions[:] = NetworkAPI.get_transactions(self.address)
+        transactions = list(NetworkAPI.get_transactions(self.address))
         if self.segwit_address:
-            self.transactions += NetworkAPI.get_transactions(self.segwit_address)
+            transactions += NetworkAPI.get_transactions(self.segwit_address)
+        self.transactions[:] = transactions
         return self.transactions
 
     def create_transaction(
@@ -640,16 +642,17 @@ class PrivateKeyTestnet(BaseKey):
 
         :rtype: ``list`` of :class:`~bit.network.meta.Unspent`
         """
-        self.unspents[:] = list(
+        unspents = list(
             map(
                 lambda u: u.set_type('p2pkh' if self.is_compressed() else 'p2pkh-uncompressed'),
                 NetworkAPI.get_unspent_testnet(self.address),
             )
         )
         if self.segwit_address:
-            self.unspents += list(
+            unspents += list(
                 map(lambda u: u.set_type('np2wkh'), NetworkAPI.get_unspent_testnet(self.segwit_address))
             )
+        self.unspents[:] = unspents
         self.balance = sum(unspent.amount for unspent in self.unspents)
         return self.unspents
 
@@ -658,9 +661,10 @@ class PrivateKeyTestnet(BaseKey):
 
         :rtype: ``list`` of ``str`` transaction IDs
         """
-        self.transactions[:] = NetworkAPI.get_transactions_testnet(self.address)
+        transactions = list(NetworkAPI.get_transactions_testnet(self.address))
         if self.segwit_address:
-            self.transactions += NetworkAPI.get_transactions_testnet(self.segwit_address)
+            transactions += NetworkAPI.get_transactions_testnet(self.segwit_address)
+        self.transactions[:] = transactions
         return self.transactions
 
     def create_transaction(
@@ -1081,11 +1085,12 @@ class MultiSig:
         # Converting to vSize for Segwit: outpoint size + scriptSig size + witness vSize:
         add_np2wsh_vsize = 36 + 40 + (1 + p2sh_size) / 4
 
-        self.unspents[:] = list(map(lambda u: u.set_type('p2sh', add_p2sh_vsize), NetworkAPI.get_unspent(self.address)))
+        unspents = list(map(lambda u: u.set_type('p2sh', add_p2sh_vsize), NetworkAPI.get_unspent(self.address)))
         if self.segwit_address:
-            self.unspents += list(
+            unspents += list(
                 map(lambda u: u.set_type('np2wsh', add_np2wsh_vsize), NetworkAPI.get_unspent(self.segwit_address))
             )
+        self.unspents[:] = unspents
         self.balance = sum(unspent.amount for unspent in self.unspents)
         return self.unspents
 
@@ -1094,9 +1099,10 @@ class MultiSig:
 
         :rtype: ``list`` of ``str`` transaction IDs
         """
-        self.transactions[:] = NetworkAPI.get_transactions(self.address)
+        transactions = list(NetworkAPI.get_transactions(self.address))
         if self.segwit_address:
-            self.transactions += NetworkAPI.get_transactions(self.segwit_address)
+            transactions += NetworkAPI.get_transactions(self.segwit_address)
+        self.transactions[:] = transactions
         return self.transactions
 
     def create_transaction(
@@ -1404,16 +1410,17 @@ class MultiSigTestnet:
         # Converting to vSize for Segwit: outpoint size + scriptSig size + witness vSize
         add_np2wsh_vsize = 36 + 40 + (1 + p2sh_size) / 4
 
-        self.unspents[:] = list(
+        unspents = list(
             map(lambda u: u.set_type('p2sh', add_p2sh_vsize), NetworkAPI.get_unspent_testnet(self.address))
         )
         if self.segwit_address:
-            self.unspents += list(
+            unspents += list(
                 map(
                     lambda u: u.set_type('np2wsh', add_np2wsh_vsize),
                     NetworkAPI.get_unspent_testnet(self.segwit_address),
                 )
             )
+        self.unspents[:] = unspents
         self.balance = sum(unspent.amount for unspent in self.unspents)
         return self.unspents
 
@@ -1422,9 +1429,10 @@ class MultiSigTestnet:
 
         :rtype: ``list`` of ``str`` transaction IDs
         """
-        self.transactions[:] = NetworkAPI.get_transactions_testnet(self.address)
+        transactions = list(NetworkAPI.get_transactions_testnet(self.address))
         if self.segwit_address:
-            self.transactions += NetworkAPI.get_transactions_testnet(self.segwit_address)
+            transactions += NetworkAPI.get_transactions_testnet(self.segwit_address)
+        self.transactions[:] = transactions
         return self.transactions
 
     def create_transaction(
-- 
2.43.0


From 8ae95d6d8e63478d861073477ca3c833b8cda83a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:15:33 +0000
Subject: [PATCH 20/35] fix: node credentials with reserved characters no
 longer change the node's URL

---
 bit/network/services.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/bit/network/services.py b/bit/network/services.py
index bfd66b9..0b500ad 100644
--- a/bit/network/services.py
+++ b/bit/network/services.py
@@ -1,6 +1,7 @@
 import requests
 import json
 import logging
+from urllib.parse import quote
 
 from bit.network import currency_to_satoshi
 from bit.network.meta import Unspent
@@ -20,7 +21,12 @@ class RPCHost:
     def __init__(self, user, password, host, port, use_https, path):
         self._session = requests.Session()
         self._url = "http{s}://{user}:{password}@{host}:{port}/{path}".format(
-            s="s" if use_https else "", user=user, password=password, host=host, port=port, path=path
+            s="s" if use_https else "",
+            user=quote(user, safe=""),
+            password=quote(password, safe=""),
+            host=host,
+            port=port,
+            path=path,
         )
         self._headers = {"content-type": "application/json"}
         self._session.verify = use_https
-- 
2.43.0


From df51d2ad9a9b0ac4f930b714f9841dc882afb52d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:47:19 +0000
Subject: [PATCH 21/35] fix: Blockstream history lists unconfirmed transactions
 first, as the newest ones

---
 bit/network/services.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/bit/network/services.py b/bit/network/services.py
index 0b500ad..c8773fd 100644
--- a/bit/network/services.py
+++ b/bit/network/services.py
@@ -396,9 +396,8 @@ class BlockstreamAPI:
             response = r.json()
             total_txs = len(response)
 
-        transactions.extend(unconfirmed)
-
-        return transactions
+        # Newest first, as within each of both lists.
+        return unconfirmed + transactions
 
     @classmethod
     def get_transactions_testnet(cls, address):
-- 
2.43.0


From 5f419b8b67e9e150cb6229f55a7104d1515d6320 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:14:30 +0000
Subject: [PATCH 22/35] fix: signing an unsigned transaction of legacy and
 segwit inputs gives every input a witness field

---
 bit/transaction.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/bit/transaction.py b/bit/transaction.py
index c9fdcb9..3859b17 100644
--- a/bit/transaction.py
+++ b/bit/transaction.py
@@ -153,7 +153,10 @@ class TxObj:
     def __bytes__(self):
         inp = int_to_varint(len(self.TxIn)) + b''.join(map(bytes, self.TxIn))
         out = int_to_varint(len(self.TxOut)) + b''.join(map(bytes, self.TxOut))
-        wit = b''.join([w.witness for w in self.TxIn])
+        wit = b''
+        if any(i.witness for i in self.TxIn):
+            # Inputs without witness data have an empty witness field:
+            wit = b''.join([i.witness or b'\x00' for i in self.TxIn])
         return b''.join([self.version, MARKER if wit else b'', FLAG if wit else b'', inp, out, wit, self.locktime])
 
     def legacy_repr(self):
-- 
2.43.0


From 80b82467fc7beb4ed500a8e4a8fd6a48d21fd019 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:39:20 +0000
Subject: [PATCH 23/35] fix: a negative fee is refused instead of creating
 value

---
 bit/transaction.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/bit/transaction.py b/bit/transaction.py
index 3859b17..16f71ab 100644
--- a/bit/transaction.py
+++ b/bit/transaction.py
@@ -399,6 +399,9 @@ def sanitize_tx_data(
     if not unspents:
         raise ValueError('Transactions must have at least one unspent.')
 
+    if fee < 0:
+        raise ValueError('The fee cannot be negative.')
+
     # Temporary storage so all outputs precede messages.
     messages = []
 
-- 
2.43.0


From dcbb06e535c5db108b73346b47b07a042a0553f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:39:20 +0000
Subject: [PATCH 24/35] fix: a fee of zero is used as given instead of the
 recommended fee

---
 bit/wallet.py | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/bit/wallet.py b/bit/wallet.py
index 1994149..21ae107 100644
--- a/bit/wallet.py
+++ b/bit/wallet.py
@@ -323,7 +323,7 @@ class PrivateKey(BaseKey):
         unspents, outputs = sanitize_tx_data(
             unspents,
             outputs,
-            fee or get_fee_cached(),
+            get_fee_cached() if fee is None else fee,
             leftover or return_address,
             combine=combine,
             message=message,
@@ -457,7 +457,7 @@ class PrivateKey(BaseKey):
         unspents, outputs = sanitize_tx_data(
             unspents or [u.set_type(address_to_unspent_type(address, compressed)) for u in NetworkAPI.get_unspent(address)],
             outputs,
-            fee or get_fee_cached(),
+            get_fee_cached() if fee is None else fee,
             leftover or address,
             combine=combine,
             message=message,
@@ -724,7 +724,7 @@ class PrivateKeyTestnet(BaseKey):
         unspents, outputs = sanitize_tx_data(
             unspents,
             outputs,
-            fee or get_fee_cached(),
+            get_fee_cached() if fee is None else fee,
             leftover or return_address,
             combine=combine,
             message=message,
@@ -858,7 +858,7 @@ class PrivateKeyTestnet(BaseKey):
         unspents, outputs = sanitize_tx_data(
             unspents or [u.set_type(address_to_unspent_type(address, compressed)) for u in NetworkAPI.get_unspent_testnet(address)],
             outputs,
-            fee or get_fee_cached(),
+            get_fee_cached() if fee is None else fee,
             leftover or address,
             combine=combine,
             message=message,
@@ -1162,7 +1162,7 @@ class MultiSig:
         unspents, outputs = sanitize_tx_data(
             unspents,
             outputs,
-            fee or get_fee_cached(),
+            get_fee_cached() if fee is None else fee,
             leftover or return_address,
             combine=combine,
             message=message,
@@ -1231,7 +1231,7 @@ class MultiSig:
         unspents, outputs = sanitize_tx_data(
             unspents or NetworkAPI.get_unspent(address),
             outputs,
-            fee or get_fee_cached(),
+            get_fee_cached() if fee is None else fee,
             leftover or address,
             combine=combine,
             message=message,
@@ -1492,7 +1492,7 @@ class MultiSigTestnet:
         unspents, outputs = sanitize_tx_data(
             unspents,
             outputs,
-            fee or get_fee_cached(),
+            get_fee_cached() if fee is None else fee,
             leftover or return_address,
             combine=combine,
             message=message,
@@ -1561,7 +1561,7 @@ class MultiSigTestnet:
         unspents, outputs = sanitize_tx_data(
             unspents or NetworkAPI.get_unspent_testnet(address),
             outputs,
-            fee or get_fee_cached(),
+            get_fee_cached() if fee is None else fee,
             leftover or address,
             combine=combine,
             message=message,
-- 
2.43.0


From ea0691182a8671d4ff28d7de024b25fe96180081 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:40:02 +0000
Subject: [PATCH 25/35] fix: an empty list of unspents is refused instead of
 replaced by the fetched ones

---
 bit/wallet.py | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/bit/wallet.py b/bit/wallet.py
index 21ae107..aae943a 100644
--- a/bit/wallet.py
+++ b/bit/wallet.py
@@ -313,7 +313,7 @@ class PrivateKey(BaseKey):
         :rtype: ``str``
         """
         try:
-            unspents = unspents or self.get_unspents()
+            unspents = self.get_unspents() if unspents is None else unspents
         except ConnectionError:
             raise ConnectionError('All APIs are unreachable. Please provide the unspents to spend from directly.')
 
@@ -455,7 +455,7 @@ class PrivateKey(BaseKey):
         :rtype: ``str``
         """
         unspents, outputs = sanitize_tx_data(
-            unspents or [u.set_type(address_to_unspent_type(address, compressed)) for u in NetworkAPI.get_unspent(address)],
+            [u.set_type(address_to_unspent_type(address, compressed)) for u in NetworkAPI.get_unspent(address)] if unspents is None else unspents,
             outputs,
             get_fee_cached() if fee is None else fee,
             leftover or address,
@@ -714,7 +714,7 @@ class PrivateKeyTestnet(BaseKey):
         :rtype: ``str``
         """
         try:
-            unspents = unspents or self.get_unspents()
+            unspents = self.get_unspents() if unspents is None else unspents
         except ConnectionError:
             raise ConnectionError('All APIs are unreachable. Please provide the unspents to spend from directly.')
 
@@ -856,7 +856,7 @@ class PrivateKeyTestnet(BaseKey):
         :rtype: ``str``
         """
         unspents, outputs = sanitize_tx_data(
-            unspents or [u.set_type(address_to_unspent_type(address, compressed)) for u in NetworkAPI.get_unspent_testnet(address)],
+            [u.set_type(address_to_unspent_type(address, compressed)) for u in NetworkAPI.get_unspent_testnet(address)] if unspents is None else unspents,
             outputs,
             get_fee_cached() if fee is None else fee,
             leftover or address,
@@ -1152,7 +1152,7 @@ class MultiSig:
         :rtype: ``str``
         """
         try:
-            unspents = unspents or self.get_unspents()
+            unspents = self.get_unspents() if unspents is None else unspents
         except ConnectionError:
             raise ConnectionError('All APIs are unreachable. Please provide the unspents to spend from directly.')
 
@@ -1229,7 +1229,7 @@ class MultiSig:
         :rtype: ``str``
         """
         unspents, outputs = sanitize_tx_data(
-            unspents or NetworkAPI.get_unspent(address),
+            NetworkAPI.get_unspent(address) if unspents is None else unspents,
             outputs,
             get_fee_cached() if fee is None else fee,
             leftover or address,
@@ -1482,7 +1482,7 @@ class MultiSigTestnet:
         :rtype: ``str``
         """
         try:
-            unspents = unspents or self.get_unspents()
+            unspents = self.get_unspents() if unspents is None else unspents
         except ConnectionError:
             raise ConnectionError('All APIs are unreachable. Please provide the unspents to spend from directly.')
 
@@ -1559,7 +1559,7 @@ class MultiSigTestnet:
         :rtype: ``str``
         """
         unspents, outputs = sanitize_tx_data(
-            unspents or NetworkAPI.get_unspent_testnet(address),
+            NetworkAPI.get_unspent_testnet(address) if unspents is None else unspents,
             outputs,
             get_fee_cached() if fee is None else fee,
             leftover or address,
-- 
2.43.0


From f9eb4a99ba6c29db42728cd58b54720a0c031b2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:44:57 +0000
Subject: [PATCH 26/35] fix: a multisig contract requiring less than one
 signature is refused

---
 bit/format.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/bit/format.py b/bit/format.py
index 6821bda..3d8aa3a 100644
--- a/bit/format.py
+++ b/bit/format.py
@@ -150,6 +150,9 @@ def multisig_to_redeemscript(public_keys, m):
     if m > len(public_keys):
         raise ValueError('Required signatures cannot be more than the total number of public keys.')
 
+    if m < 1:
+        raise ValueError('At least one signature must be required.')
+
     redeemscript = int_to_unknown_bytes(m + 80)
 
     for key in public_keys:
-- 
2.43.0


From bb5a88e5a26ee8a89b3d75dca7a1d2cf3817c0b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:44:57 +0000
Subject: [PATCH 27/35] fix: a set of public keys is sorted by the keys, not by
 their spelling in hex

---
 bit/wallet.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/bit/wallet.py b/bit/wallet.py
index aae943a..bc9765e 100644
--- a/bit/wallet.py
+++ b/bit/wallet.py
@@ -991,9 +991,10 @@ class MultiSig:
 
         self._pk = private_key
         self.public_key = private_key.public_key
-        if type(public_keys) == set:
-            public_keys = sorted(public_keys)
         self.public_keys = list(map(lambda k: k if type(k) == bytes else hex_to_bytes(k), public_keys))
+        if type(public_keys) == set:
+            # Sort the keys themselves: hex of mixed case sorts differently.
+            self.public_keys.sort()
         self.m = m
         self.redeemscript = multisig_to_redeemscript(self.public_keys, self.m)
         self.is_compressed = all(len(p) == 33 for p in self.public_keys)
@@ -1316,9 +1317,10 @@ class MultiSigTestnet:
 
         self._pk = private_key
         self.public_key = private_key.public_key
-        if type(public_keys) == set:
-            public_keys = sorted(public_keys)
         self.public_keys = list(map(lambda k: k if type(k) == bytes else hex_to_bytes(k), public_keys))
+        if type(public_keys) == set:
+            # Sort the keys themselves: hex of mixed case sorts differently.
+            self.public_keys.sort()
         self.m = m
         self.redeemscript = multisig_to_redeemscript(self.public_keys, self.m)
         self.is_compressed = all(len(p) == 33 for p in self.public_keys)
-- 
2.43.0


From 9a8886056bbb2882134ea9c39f974eab08cb83c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:46:57 +0000
Subject: [PATCH 28/35] fix: a service whose answer breaks off counts as
 failing

---
 bit/network/fees.py     | 6 +++---
 bit/network/rates.py    | 7 ++++++-
 bit/network/services.py | 1 +
 3 files changed, 10 insertions(+), 4 deletions(-)

diff --git a/bit/network/fees.py b/bit/network/fees.py
index 643547a..6f082aa 100644
--- a/bit/network/fees.py
+++ b/bit/network/fees.py
@@ -3,7 +3,7 @@ from functools import wraps
 from time import time
 
 import requests
-from requests.exceptions import ConnectionError, HTTPError, Timeout
+from requests.exceptions import ChunkedEncodingError, ConnectionError, HTTPError, Timeout
 
 # Default fees last updated 2019-04-02
 DEFAULT_FEE_FAST = 72
@@ -55,7 +55,7 @@ def get_fee_local_cache(f):
                     # Otherwise, try to parse json as normal.
                     cached_fee_fast = request.json()['fastestFee']
                     fast_last_update = now
-                except (ConnectionError, HTTPError, Timeout):  # pragma: no cover
+                except (ConnectionError, HTTPError, Timeout, ChunkedEncodingError):  # pragma: no cover
                     if cached_fee_fast is None:
                         logging.warning(
                             'Connection to fee API failed, returning default fee (fast) of {}'.format(DEFAULT_FEE_FAST)
@@ -79,7 +79,7 @@ def get_fee_local_cache(f):
                     # Otherwise, try to parse json as normal.
                     cached_fee_hour = request.json()['hourFee']
                     hour_last_update = now
-                except (ConnectionError, HTTPError, Timeout):  # pragma: no cover
+                except (ConnectionError, HTTPError, Timeout, ChunkedEncodingError):  # pragma: no cover
                     if cached_fee_hour is None:
                         logging.warning(
                             'Connection to fee API failed, returning default fee (hour) of {}'.format(DEFAULT_FEE_HOUR)
diff --git a/bit/network/rates.py b/bit/network/rates.py
index cc9222c..7dc39a7 100644
--- a/bit/network/rates.py
+++ b/bit/network/rates.py
@@ -296,7 +296,12 @@ class RatesAPI:
     number of satoshi.
     """
 
-    IGNORED_ERRORS = (requests.exceptions.ConnectionError, requests.exceptions.HTTPError, requests.exceptions.Timeout)
+    IGNORED_ERRORS = (
+        requests.exceptions.ConnectionError,
+        requests.exceptions.HTTPError,
+        requests.exceptions.Timeout,
+        requests.exceptions.ChunkedEncodingError,
+    )
 
     USD_RATES = [BitpayRates.usd_to_satoshi, BlockchainRates.usd_to_satoshi]
     EUR_RATES = [BitpayRates.eur_to_satoshi, BlockchainRates.eur_to_satoshi]
diff --git a/bit/network/services.py b/bit/network/services.py
index c8773fd..38e6644 100644
--- a/bit/network/services.py
+++ b/bit/network/services.py
@@ -971,6 +971,7 @@ class NetworkAPI:
         requests.exceptions.ConnectionError,
         requests.exceptions.Timeout,
         requests.exceptions.ReadTimeout,
+        requests.exceptions.ChunkedEncodingError,
         ExcessiveAddress,
     )
 
-- 
2.43.0


From 009b71b56e44701839dc24fb7e125bee869fa8f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:52:37 +0000
Subject: [PATCH 29/35] fix: a key without a segwit address gets its change at
 its address when it batches segwit inputs

---
 bit/wallet.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/bit/wallet.py b/bit/wallet.py
index bc9765e..b800876 100644
--- a/bit/wallet.py
+++ b/bit/wallet.py
@@ -324,7 +324,7 @@ class PrivateKey(BaseKey):
             unspents,
             outputs,
             get_fee_cached() if fee is None else fee,
-            leftover or return_address,
+            leftover or return_address or self.address,
             combine=combine,
             message=message,
             absolute_fee=absolute_fee,
@@ -725,7 +725,7 @@ class PrivateKeyTestnet(BaseKey):
             unspents,
             outputs,
             get_fee_cached() if fee is None else fee,
-            leftover or return_address,
+            leftover or return_address or self.address,
             combine=combine,
             message=message,
             absolute_fee=absolute_fee,
@@ -1164,7 +1164,7 @@ class MultiSig:
             unspents,
             outputs,
             get_fee_cached() if fee is None else fee,
-            leftover or return_address,
+            leftover or return_address or self.address,
             combine=combine,
             message=message,
             absolute_fee=absolute_fee,
@@ -1495,7 +1495,7 @@ class MultiSigTestnet:
             unspents,
             outputs,
             get_fee_cached() if fee is None else fee,
-            leftover or return_address,
+            leftover or return_address or self.address,
             combine=combine,
             message=message,
             absolute_fee=absolute_fee,
-- 
2.43.0


From 64fc14d1c0068afe2cd8b8cdb7dec14533533d6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:18:59 +0000
Subject: [PATCH 30/35] fix: keep the fraction of a satoshi in exchange rates

A rate was cut to whole satoshi per unit of currency. At 15,000,000 JPY per
bitcoin a payment in JPY was worth 10% less than asked for, and from
100,000,000 units per bitcoin on (KRW, CLP) every payment was worth nothing and
converting a balance divided by zero.
---
 bit/network/rates.py | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/bit/network/rates.py b/bit/network/rates.py
index 7dc39a7..e578cce 100644
--- a/bit/network/rates.py
+++ b/bit/network/rates.py
@@ -109,7 +109,7 @@ class BitpayRates:
         r = requests.get(cls.SINGLE_RATE + currency, headers=headers)
         r.raise_for_status()
         rate = r.json()['data']['rate']
-        return int(ONE / Decimal(rate) * BTC)
+        return ONE / Decimal(rate) * BTC
 
     @classmethod
     def usd_to_satoshi(cls):  # pragma: no cover
@@ -204,7 +204,7 @@ class BlockchainRates:
         r = requests.get(cls.SINGLE_RATE.format(currency))
         r.raise_for_status()
         rate = r.text
-        return int(Decimal(rate) * BTC)
+        return Decimal(rate) * BTC
 
     @classmethod
     def usd_to_satoshi(cls):  # pragma: no cover
@@ -613,8 +613,7 @@ def currency_to_satoshi_local_cache(f):
 
     cached_rates = dict([(currency, CachedRate(None, start_time)) for currency in EXCHANGE_RATES.keys()])
 
-    @wraps(f)
-    def wrapper(amount, currency):
+    def rate(currency):
         now = time()
 
         cached_rate = cached_rates[currency]
@@ -623,7 +622,14 @@ def currency_to_satoshi_local_cache(f):
             cached_rate.satoshis = EXCHANGE_RATES[currency]()
             cached_rate.last_update = now
 
-        return int(cached_rate.satoshis * Decimal(amount))
+        return cached_rate.satoshis
+
+    @wraps(f)
+    def wrapper(amount, currency):
+        return int(rate(currency) * Decimal(amount))
+
+    # The rate itself, which may be a fraction of a satoshi.
+    wrapper.rate = rate
 
     return wrapper
 
@@ -676,7 +682,7 @@ def satoshi_to_currency_cached(num, currency):
     :rtype: ``str``
     """
     return '{:f}'.format(
-        Decimal(num / Decimal(currency_to_satoshi_cached(1, currency)))
+        Decimal(num / Decimal(currency_to_satoshi_local_cached.rate(currency)))
         .quantize(Decimal('0.' + '0' * CURRENCY_PRECISION[currency]), rounding=ROUND_DOWN)
         .normalize()
     )
-- 
2.43.0


From 181433d388daf6cbb614b377ec5aa4775702bd41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:25:24 +0000
Subject: [PATCH 31/35] fix: refuse serialized transactions that are cut off or
 have data left over

deserialize() took a transaction whose last field is cut off, that is
followed by further bytes or whose lengths are not minimally encoded, and
silently dropped or re-encoded the difference, so that calc_txid() and
sign_transaction() worked on a transaction other than the one given.
---
 bit/transaction.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/bit/transaction.py b/bit/transaction.py
index 16f71ab..1d5923d 100644
--- a/bit/transaction.py
+++ b/bit/transaction.py
@@ -330,6 +330,7 @@ def deserialize(tx):
     if isinstance(tx, str) and re.match('^[0-9a-fA-F]*$', tx):
         return deserialize(hex_to_bytes(tx))
 
+    serialized = tx
     segwit_tx = TxObj.is_segwit(tx)
 
     version, tx = read_bytes(tx, 4)
@@ -367,6 +368,10 @@ def deserialize(tx):
 
     txobj = TxObj(version, inputs, outputs, locktime)
 
+    # Neither a cut off field nor data left over may get lost silently:
+    if len(locktime) != 4 or bytes(txobj) != serialized:
+        raise ValueError('The serialized transaction is malformed.')
+
     return txobj
 
 
-- 
2.43.0


From 68b4c31f51227c0cf6257fe8ebbb06c7e4b30122 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:51:53 +0000
Subject: [PATCH 32/35] fix: keys imported with surplus leading zero bytes

A key imported from bytes or hex with more than 32 bytes, as some big
integer libraries write them, was equal to the right one but had the
public key and addresses of another number, because only the first 32
bytes were used. A WIF holding more than 32 bytes was accepted likewise;
it is malformed and now refused.
---
 bit/format.py | 3 +++
 bit/wallet.py | 4 ++++
 2 files changed, 7 insertions(+)

diff --git a/bit/format.py b/bit/format.py
index 3d8aa3a..900a765 100644
--- a/bit/format.py
+++ b/bit/format.py
@@ -97,6 +97,9 @@ def wif_to_bytes(wif):
     else:
         private_key, compressed = private_key[1:], False
 
+    if len(private_key) > 32:
+        raise ValueError('{} bytes is too long for a private key.'.format(len(private_key)))
+
     return private_key, compressed, version
 
 
diff --git a/bit/wallet.py b/bit/wallet.py
index b800876..18f1f3c 100644
--- a/bit/wallet.py
+++ b/bit/wallet.py
@@ -77,6 +77,10 @@ class BaseKey:
             self._pk = ECPrivateKey()
             compressed = True
 
+        # Leading zero bytes beyond the size of a key do not change its value:
+        if len(self._pk.secret) > 32:
+            self._pk = ECPrivateKey.from_int(self._pk.to_int())
+
         self._public_point = None
         self._public_key = self._pk.public_key.format(compressed=compressed)
 
-- 
2.43.0


From 0b4276e3e4c120b9c32b0944cf19741e74c46b9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:38:49 +0000
Subject: [PATCH 33/35] fix: converted amounts do not depend on the caller's
 decimal context

---
 bit/network/rates.py | 26 +++++++++++++++-----------
 1 file changed, 15 insertions(+), 11 deletions(-)

diff --git a/bit/network/rates.py b/bit/network/rates.py
index e578cce..a6a7627 100644
--- a/bit/network/rates.py
+++ b/bit/network/rates.py
@@ -1,5 +1,5 @@
 from collections import OrderedDict
-from decimal import ROUND_DOWN
+from decimal import Context, ROUND_DOWN, ROUND_HALF_EVEN
 from functools import wraps
 from time import time
 
@@ -14,6 +14,10 @@ DEFAULT_CACHE_TIME = 60
 # rates when given in terms of 1 BTC.
 ONE = Decimal(1)
 
+# Amounts must not depend on the precision or rounding
+# that the decimal context of the caller happens to have.
+CONTEXT = Context(prec=28, rounding=ROUND_HALF_EVEN)
+
 SUPPORTED_CURRENCIES = OrderedDict(
     [
         ('satoshi', 'Satoshi'),
@@ -109,7 +113,7 @@ class BitpayRates:
         r = requests.get(cls.SINGLE_RATE + currency, headers=headers)
         r.raise_for_status()
         rate = r.json()['data']['rate']
-        return ONE / Decimal(rate) * BTC
+        return CONTEXT.multiply(CONTEXT.divide(ONE, Decimal(rate)), BTC)
 
     @classmethod
     def usd_to_satoshi(cls):  # pragma: no cover
@@ -204,7 +208,7 @@ class BlockchainRates:
         r = requests.get(cls.SINGLE_RATE.format(currency))
         r.raise_for_status()
         rate = r.text
-        return Decimal(rate) * BTC
+        return CONTEXT.multiply(Decimal(rate), BTC)
 
     @classmethod
     def usd_to_satoshi(cls):  # pragma: no cover
@@ -597,7 +601,7 @@ def currency_to_satoshi(amount, currency):
     :rtype: ``int``
     """
     satoshis = EXCHANGE_RATES[currency]()
-    return int(satoshis * Decimal(amount))
+    return int(CONTEXT.multiply(satoshis, Decimal(amount)))
 
 
 class CachedRate:
@@ -626,7 +630,7 @@ def currency_to_satoshi_local_cache(f):
 
     @wraps(f)
     def wrapper(amount, currency):
-        return int(rate(currency) * Decimal(amount))
+        return int(CONTEXT.multiply(rate(currency), Decimal(amount)))
 
     # The rate itself, which may be a fraction of a satoshi.
     wrapper.rate = rate
@@ -664,9 +668,9 @@ def satoshi_to_currency(num, currency):
     :rtype: ``str``
     """
     return '{:f}'.format(
-        Decimal(num / Decimal(EXCHANGE_RATES[currency]()))
-        .quantize(Decimal('0.' + '0' * CURRENCY_PRECISION[currency]), rounding=ROUND_DOWN)
-        .normalize()
+        CONTEXT.divide(num, Decimal(EXCHANGE_RATES[currency]()))
+        .quantize(Decimal('0.' + '0' * CURRENCY_PRECISION[currency]), rounding=ROUND_DOWN, context=CONTEXT)
+        .normalize(CONTEXT)
     )
 
 
@@ -682,7 +686,7 @@ def satoshi_to_currency_cached(num, currency):
     :rtype: ``str``
     """
     return '{:f}'.format(
-        Decimal(num / Decimal(currency_to_satoshi_local_cached.rate(currency)))
-        .quantize(Decimal('0.' + '0' * CURRENCY_PRECISION[currency]), rounding=ROUND_DOWN)
-        .normalize()
+        CONTEXT.divide(num, Decimal(currency_to_satoshi_local_cached.rate(currency)))
+        .quantize(Decimal('0.' + '0' * CURRENCY_PRECISION[currency]), rounding=ROUND_DOWN, context=CONTEXT)
+        .normalize(CONTEXT)
     )
-- 
2.43.0


From 432975e7a130e77887c731619e0ac39bc3029f0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:43:04 +0000
Subject: [PATCH 34/35] fix: an answer that is not the JSON or number due
 counts as a failing service

---
 bit/network/fees.py     | 4 ++--
 bit/network/rates.py    | 5 ++++-
 bit/network/services.py | 2 ++
 3 files changed, 8 insertions(+), 3 deletions(-)

diff --git a/bit/network/fees.py b/bit/network/fees.py
index 6f082aa..96dcf79 100644
--- a/bit/network/fees.py
+++ b/bit/network/fees.py
@@ -55,7 +55,7 @@ def get_fee_local_cache(f):
                     # Otherwise, try to parse json as normal.
                     cached_fee_fast = request.json()['fastestFee']
                     fast_last_update = now
-                except (ConnectionError, HTTPError, Timeout, ChunkedEncodingError):  # pragma: no cover
+                except (ConnectionError, HTTPError, Timeout, ChunkedEncodingError, ValueError):  # pragma: no cover
                     if cached_fee_fast is None:
                         logging.warning(
                             'Connection to fee API failed, returning default fee (fast) of {}'.format(DEFAULT_FEE_FAST)
@@ -79,7 +79,7 @@ def get_fee_local_cache(f):
                     # Otherwise, try to parse json as normal.
                     cached_fee_hour = request.json()['hourFee']
                     hour_last_update = now
-                except (ConnectionError, HTTPError, Timeout, ChunkedEncodingError):  # pragma: no cover
+                except (ConnectionError, HTTPError, Timeout, ChunkedEncodingError, ValueError):  # pragma: no cover
                     if cached_fee_hour is None:
                         logging.warning(
                             'Connection to fee API failed, returning default fee (hour) of {}'.format(DEFAULT_FEE_HOUR)
diff --git a/bit/network/rates.py b/bit/network/rates.py
index a6a7627..6af2a51 100644
--- a/bit/network/rates.py
+++ b/bit/network/rates.py
@@ -1,5 +1,5 @@
 from collections import OrderedDict
-from decimal import Context, ROUND_DOWN, ROUND_HALF_EVEN
+from decimal import Context, InvalidOperation, ROUND_DOWN, ROUND_HALF_EVEN
 from functools import wraps
 from time import time
 
@@ -305,6 +305,9 @@ class RatesAPI:
         requests.exceptions.HTTPError,
         requests.exceptions.Timeout,
         requests.exceptions.ChunkedEncodingError,
+        # An answer that is not the JSON or number it should be:
+        ValueError,
+        InvalidOperation,
     )
 
     USD_RATES = [BitpayRates.usd_to_satoshi, BlockchainRates.usd_to_satoshi]
diff --git a/bit/network/services.py b/bit/network/services.py
index 38e6644..875e12f 100644
--- a/bit/network/services.py
+++ b/bit/network/services.py
@@ -973,6 +973,8 @@ class NetworkAPI:
         requests.exceptions.ReadTimeout,
         requests.exceptions.ChunkedEncodingError,
         ExcessiveAddress,
+        # An answer that is not the JSON or number it should be:
+        ValueError,
     )
 
     GET_BALANCE_MAIN = [
-- 
2.43.0


From 9667c2d0a0132627e6168015e3a7b33a5607f22c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:30:39 +0000
Subject: [PATCH 35/35] fix: do not quote a mistyped private key in the error
 of a wrong checksum

---
 bit/base58.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/bit/base58.py b/bit/base58.py
index e3ef427..666fab5 100644
--- a/bit/base58.py
+++ b/bit/base58.py
@@ -71,9 +71,9 @@ def b58decode_check(string):
     hash_checksum = double_sha256_checksum(shortened)
 
     if decoded_checksum != hash_checksum:
+        # The string itself is not quoted, it may be a mistyped private key.
         raise ValueError(
-            'Decoded checksum {} derived from "{}" is not equal to hash '
-            'checksum {}.'.format(decoded_checksum, string, hash_checksum)
+            'Decoded checksum {} is not equal to hash checksum {}.'.format(decoded_checksum, hash_checksum)
         )
 
     return shortened
-- 
2.43.0

