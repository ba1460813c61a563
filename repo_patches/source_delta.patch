From 3e4a7e8baebf7e7caee03cb1d6f3265b49035486 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:57 +0000
Subject: [PATCH 01/29] fix: hash a password exactly as it was given

The password was trimmed before hashing, but not before matching: a user
whose password starts or ends with a space could not log in with it, and
a padded password passed the length policy although a shorter one was stored.
---
 password.go | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/password.go b/password.go
index 7e81482..b9fe29d 100644
--- a/password.go
+++ b/password.go
@@ -70,8 +70,7 @@ func (p *Password) Disable() {
 }
 
 func (p *Password) hash(s string) error {
-	s = strings.TrimSpace(s)
-	if s == "" {
+	if strings.TrimSpace(s) == "" {
 		return errors.ErrPasswordEmpty
 	}
 	switch p.Algorithm {
-- 
2.43.0


From 064293b18d1354c00515ac85d45efdf309b43725 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:03 +0000
Subject: [PATCH 02/29] fix: reject disabled and expired API keys during the
 lookup

---
 user.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/user.go b/user.go
index 87e0e15..161246f 100644
--- a/user.go
+++ b/user.go
@@ -444,6 +444,9 @@ func (user *User) DeleteAPIKey(r *requests.Request) error {
 func (user *User) LookupAPIKey(r *requests.Request) error {
 	for _, k := range user.APIKeys {
 		if k.Prefix == r.Key.Prefix {
+			if k.Disabled || k.Expired {
+				return errors.ErrLookupAPIKeyFailed
+			}
 			if k.Match(r.Key.Payload) {
 				return nil
 			}
-- 
2.43.0


From 65fa42ae1fb2aa3b919795acb87ca178e6da76b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:09 +0000
Subject: [PATCH 03/29] fix: find users with short usernames and email
 addresses

AddUser accepts one-character usernames (when the policy permits) and email
addresses such as a@b, but the lookup refused to search for them.
---
 database.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/database.go b/database.go
index 19b834e..a032114 100644
--- a/database.go
+++ b/database.go
@@ -401,7 +401,7 @@ func (db *Database) getUserByID(s string) (*User, error) {
 
 // getUserByUsername returns a user by username
 func (db *Database) getUserByUsername(s string) (*User, error) {
-	if len(s) < 2 {
+	if len(s) < 1 {
 		return nil, errors.ErrDatabaseUserNotFound
 	}
 	s = strings.ToLower(s)
@@ -415,7 +415,7 @@ func (db *Database) getUserByUsername(s string) (*User, error) {
 // getUserByEmailAddress returns a liast of users associated with a specific email
 // address.
 func (db *Database) getUserByEmailAddress(s string) (*User, error) {
-	if len(s) < 6 {
+	if len(s) < 3 {
 		return nil, errors.ErrDatabaseUserNotFound
 	}
 	s = strings.ToLower(s)
-- 
2.43.0


From 11bdbe3a5cca5a2cbe5bacf50712b6df5c2e260a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:16 +0000
Subject: [PATCH 04/29] fix: keep at most the configured number of previous
 passwords

---
 user.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/user.go b/user.go
index 161246f..aad8ef6 100644
--- a/user.go
+++ b/user.go
@@ -158,13 +158,13 @@ func (user *User) AddPassword(s string, keepVersions int) error {
 	passwords = append(passwords, password)
 	if len(user.Passwords) > 0 {
 		for i, p := range user.Passwords {
+			if i >= keepVersions {
+				break
+			}
 			if !p.Disabled {
 				p.Disable()
 			}
 			passwords = append(passwords, p)
-			if i > keepVersions {
-				break
-			}
 		}
 	}
 	user.Passwords = passwords
-- 
2.43.0


From 4fdb7e67806a45bcc98a6ca413625dff3c671a97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:22 +0000
Subject: [PATCH 05/29] fix: detect a duplicate public key regardless of its
 encoding

---
 user.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/user.go b/user.go
index aad8ef6..87cbdaf 100644
--- a/user.go
+++ b/user.go
@@ -380,7 +380,8 @@ func (user *User) AddPublicKey(r *requests.Request) error {
 		if k.Type != key.Type {
 			continue
 		}
-		if k.Fingerprint != key.Fingerprint {
+		// The fingerprints of OpenSSH keys have a prefix, unlike those of PEM keys.
+		if strings.TrimPrefix(k.Fingerprint, "SHA256:") != strings.TrimPrefix(key.Fingerprint, "SHA256:") {
 			continue
 		}
 		return errors.ErrAddPublicKey.WithArgs(r.Key.Usage, "already exists")
-- 
2.43.0


From 17777313fe09aac0a3172c21f7da8d24948a4287 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:29 +0000
Subject: [PATCH 06/29] fix: reject OpenSSH and PGP public keys not matching
 their usage

---
 public_key.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/public_key.go b/public_key.go
index 147edc7..4921ed9 100644
--- a/public_key.go
+++ b/public_key.go
@@ -129,6 +129,9 @@ func (p *PublicKey) parse() error {
 }
 
 func (p *PublicKey) parsePublicKeyOpenSSH() error {
+	if p.Usage != "ssh" {
+		return errors.ErrPublicKeyUsagePayloadMismatch.WithArgs(p.Usage)
+	}
 	// Attempt parsing as authorized OpenSSH keys.
 	payloadBytes := bytes.TrimSpace([]byte(p.Payload))
 	i := bytes.IndexAny(payloadBytes, " \t")
@@ -192,6 +195,9 @@ func (p *PublicKey) parsePublicKeyOpenSSH() error {
 }
 
 func (p *PublicKey) parsePublicKeyPGP() error {
+	if p.Usage != "gpg" {
+		return errors.ErrPublicKeyUsagePayloadMismatch.WithArgs(p.Usage)
+	}
 	var user, algo, comment string
 	p.Payload = strings.TrimSpace(p.Payload)
 	for _, w := range []string{"BEGIN", "END"} {
-- 
2.43.0


From 8a9f204d4da37f5c05699c1a446a9417def6983f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:36 +0000
Subject: [PATCH 07/29] fix: require the mfa challenge only when there is an
 enabled MFA token

---
 user.go | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/user.go b/user.go
index 87cbdaf..5013907 100644
--- a/user.go
+++ b/user.go
@@ -550,8 +550,11 @@ func (user *User) GetMetadata() *UserMetadata {
 func (user *User) GetChallenges() []string {
 	var challenges []string
 	challenges = append(challenges, "password")
-	if len(user.MfaTokens) > 0 {
-		challenges = append(challenges, "mfa")
+	for _, token := range user.MfaTokens {
+		if !token.Disabled {
+			challenges = append(challenges, "mfa")
+			break
+		}
 	}
 	return challenges
 }
-- 
2.43.0


From e499b430074a5227fc97b833be11b3d89caab446 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:12 +0000
Subject: [PATCH 08/29] fix: return an error for malformed public key of U2F
 registration

The type assertions panicked when the values of the key were of unexpected
types. The formatting of values keeps WithArgs from returning a nil error
for the null ones.
---
 mfa_token.go | 30 +++++++++++++++++++-----------
 1 file changed, 19 insertions(+), 11 deletions(-)

diff --git a/mfa_token.go b/mfa_token.go
index 8980581..864a9e7 100644
--- a/mfa_token.go
+++ b/mfa_token.go
@@ -223,11 +223,11 @@ func NewMfaToken(req *requests.Request) (*MfaToken, error) {
 		// See https://www.iana.org/assignments/cose/cose.xhtml#key-type
 		var keyType string
 		if v, exists := r.AttestationObject.AuthData.CredentialData.PublicKey["key_type"]; exists {
-			switch v.(float64) {
-			case 2:
+			switch v {
+			case float64(2):
 				keyType = "ec2"
 			default:
-				return nil, errors.ErrWebAuthnRegisterPublicKeyUnsupported.WithArgs(v)
+				return nil, errors.ErrWebAuthnRegisterPublicKeyUnsupported.WithArgs(fmt.Sprint(v))
 			}
 		} else {
 			return nil, errors.ErrWebAuthnRegisterPublicKeyTypeNotFound
@@ -236,11 +236,11 @@ func NewMfaToken(req *requests.Request) (*MfaToken, error) {
 		// See https://www.iana.org/assignments/cose/cose.xhtml#algorithms
 		var keyAlgo string
 		if v, exists := r.AttestationObject.AuthData.CredentialData.PublicKey["algorithm"]; exists {
-			switch v.(float64) {
-			case -7:
+			switch v {
+			case float64(-7):
 				keyAlgo = "es256"
 			default:
-				return nil, errors.ErrWebAuthnRegisterPublicKeyAlgorithmUnsupported.WithArgs(v)
+				return nil, errors.ErrWebAuthnRegisterPublicKeyAlgorithmUnsupported.WithArgs(fmt.Sprint(v))
 			}
 		} else {
 			return nil, errors.ErrWebAuthnRegisterPublicKeyAlgorithmNotFound
@@ -249,18 +249,26 @@ func NewMfaToken(req *requests.Request) (*MfaToken, error) {
 		// See https://www.iana.org/assignments/cose/cose.xhtml#elliptic-curves
 		var curveType, curveXcoord, curveYcoord string
 		if v, exists := r.AttestationObject.AuthData.CredentialData.PublicKey["curve_type"]; exists {
-			switch v.(float64) {
-			case 1:
+			switch v {
+			case float64(1):
 				curveType = "p256"
 			default:
-				return nil, errors.ErrWebAuthnRegisterPublicKeyCurveUnsupported.WithArgs(v)
+				return nil, errors.ErrWebAuthnRegisterPublicKeyCurveUnsupported.WithArgs(fmt.Sprint(v))
 			}
 		}
 		if v, exists := r.AttestationObject.AuthData.CredentialData.PublicKey["curve_x"]; exists {
-			curveXcoord = v.(string)
+			coord, ok := v.(string)
+			if !ok {
+				return nil, errors.ErrWebAuthnRegisterPublicKeyCurveCoord.WithArgs("x", "not a string")
+			}
+			curveXcoord = coord
 		}
 		if v, exists := r.AttestationObject.AuthData.CredentialData.PublicKey["curve_y"]; exists {
-			curveYcoord = v.(string)
+			coord, ok := v.(string)
+			if !ok {
+				return nil, errors.ErrWebAuthnRegisterPublicKeyCurveCoord.WithArgs("y", "not a string")
+			}
+			curveYcoord = coord
 		}
 
 		switch keyType {
-- 
2.43.0


From 2a477df5f56935ce46568381fb842d9f682a29b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:19 +0000
Subject: [PATCH 09/29] fix: do not modify MFA token when verifying WebAuthn
 request

The verification happens under the read lock of the database.
---
 mfa_token.go | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/mfa_token.go b/mfa_token.go
index 864a9e7..b443569 100644
--- a/mfa_token.go
+++ b/mfa_token.go
@@ -313,10 +313,12 @@ func (p *MfaToken) WebAuthnRequest(payload string) (*WebAuthnAuthenticateRequest
 		}
 	}
 
+	// The concurrent requests share the token. Thus, do not modify it here.
+	token := &MfaToken{pubkey: p.pubkey}
 	switch p.Parameters["key_type"] {
 	case "ec2":
-		if p.pubkey == nil {
-			if err := p.derivePublicKey(p.Parameters); err != nil {
+		if token.pubkey == nil {
+			if err := token.derivePublicKey(p.Parameters); err != nil {
 				return nil, err
 			}
 		}
@@ -420,7 +422,7 @@ func (p *MfaToken) WebAuthnRequest(payload string) (*WebAuthnAuthenticateRequest
 	// Verify signature.
 	signedData := append(authDataBytes, clientDataHash[:]...)
 	crt := &x509.Certificate{
-		PublicKey: p.pubkey,
+		PublicKey: token.pubkey,
 	}
 
 	switch p.Parameters["key_algo"] {
-- 
2.43.0


From fc495e3a2a35ca616d6bf266c75b66d86c36ca0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:51 +0000
Subject: [PATCH 10/29] fix: reject U2F registration without a usable public
 key

The coordinates of the key were not checked until the authentication. A user
registering such a token had to pass MFA challenge that was impossible to pass.
---
 mfa_token.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/mfa_token.go b/mfa_token.go
index b443569..ff5e599 100644
--- a/mfa_token.go
+++ b/mfa_token.go
@@ -288,6 +288,10 @@ func NewMfaToken(req *requests.Request) (*MfaToken, error) {
 		p.Parameters["curve_type"] = curveType
 		p.Parameters["curve_xcoord"] = curveXcoord
 		p.Parameters["curve_ycoord"] = curveYcoord
+		// A token without a usable public key would never pass authentication.
+		if err := p.derivePublicKey(p.Parameters); err != nil {
+			return nil, err
+		}
 		//return nil, fmt.Errorf("XXX: %v", r.AttestationObject.AttestationStatement.Certificates)
 		//return nil, fmt.Errorf("XXX: %v", r.AttestationObject.AuthData.CredentialData)
 	case "":
@@ -540,6 +544,9 @@ func (p *MfaToken) derivePublicKey(params map[string]string) error {
 
 	switch params["key_algo"] {
 	case "es256":
+		if !elliptic.P256().IsOnCurve(coords[0], coords[1]) {
+			return errors.ErrWebAuthnRegisterPublicKeyCurveCoord.WithArgs("x, y", "not on the curve")
+		}
 		p.pubkey = &ecdsa.PublicKey{Curve: elliptic.P256(), X: coords[0], Y: coords[1]}
 	default:
 		return errors.ErrWebAuthnRegisterPublicKeyAlgorithmUnsupported.WithArgs(params["key_algo"])
-- 
2.43.0


From e69e83235bf3f76b90900ccdc0b6496385eb852c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:44 +0000
Subject: [PATCH 11/29] fix: return an error for the database file having null
 entries

The entries caused a panic when loading the file or when using the database.
---
 pkg/errors/database.go |  2 ++
 user.go                | 33 +++++++++++++++++++++++++++++++++
 2 files changed, 35 insertions(+)

diff --git a/pkg/errors/database.go b/pkg/errors/database.go
index 89755c4..cb66322 100644
--- a/pkg/errors/database.go
+++ b/pkg/errors/database.go
@@ -57,6 +57,8 @@ const (
 
 	ErrUserIDInvalidLength StandardError = "invalid user id length: %d"
 	ErrUsernameEmpty       StandardError = "username is empty"
+	ErrUserEmpty           StandardError = "user is empty"
+	ErrUserEntryEmpty      StandardError = "user has empty %s entry"
 
 	ErrEmailAddressInvalid StandardError = "invalid email address"
 	ErrRoleEmpty           StandardError = "role name is empty"
diff --git a/user.go b/user.go
index 5013907..1418654 100644
--- a/user.go
+++ b/user.go
@@ -133,6 +133,9 @@ func NewUserWithRoles(username, password, email, fullName string, roles []string
 
 // Valid returns true if a user conforms to a standard.
 func (user *User) Valid() error {
+	if user == nil {
+		return errors.ErrUserEmpty
+	}
 	if len(user.ID) != 36 {
 		return errors.ErrUserIDInvalidLength.WithArgs(len(user.ID))
 	}
@@ -142,6 +145,36 @@ func (user *User) Valid() error {
 	if len(user.Passwords) < 1 {
 		return errors.ErrUserPasswordNotFound
 	}
+	for _, p := range user.Passwords {
+		if p == nil {
+			return errors.ErrUserEntryEmpty.WithArgs("password")
+		}
+	}
+	for _, m := range user.EmailAddresses {
+		if m == nil {
+			return errors.ErrUserEntryEmpty.WithArgs("email address")
+		}
+	}
+	for _, r := range user.Roles {
+		if r == nil {
+			return errors.ErrUserEntryEmpty.WithArgs("role")
+		}
+	}
+	for _, k := range user.PublicKeys {
+		if k == nil {
+			return errors.ErrUserEntryEmpty.WithArgs("public key")
+		}
+	}
+	for _, k := range user.APIKeys {
+		if k == nil {
+			return errors.ErrUserEntryEmpty.WithArgs("api key")
+		}
+	}
+	for _, t := range user.MfaTokens {
+		if t == nil {
+			return errors.ErrUserEntryEmpty.WithArgs("mfa token")
+		}
+	}
 	return nil
 }
 
-- 
2.43.0


From dd0b7fb880497cc605ce5b8364f4cfe742671bea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:51 +0000
Subject: [PATCH 12/29] fix: acquire the lock when reading the path to the
 database

Copy changes the path temporarily.
---
 database.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/database.go b/database.go
index a032114..fb48cc7 100644
--- a/database.go
+++ b/database.go
@@ -244,6 +244,8 @@ func (db *Database) checkPasswordPolicyCompliance(s string) error {
 
 // GetPath returns the path  to Database.
 func (db *Database) GetPath() string {
+	db.mu.RLock()
+	defer db.mu.RUnlock()
 	return db.path
 }
 
-- 
2.43.0


From f777300550116ac17a4d56f2d6053fe5ee2f961c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:58 +0000
Subject: [PATCH 13/29] fix: use cryptographically secure randomness for keys

The API keys came from a shared math/rand source, which is neither secure nor
safe for concurrent use. GetRandomStringFromRange panicked for an empty range.
---
 random.go | 28 ++++++++++++++++++----------
 uuid.go   |  3 +--
 2 files changed, 19 insertions(+), 12 deletions(-)

diff --git a/random.go b/random.go
index 750127d..7b47b63 100644
--- a/random.go
+++ b/random.go
@@ -15,21 +15,26 @@
 package identity
 
 import (
-	"math/rand"
-	"time"
+	"crypto/rand"
+	"math/big"
 )
 
 const charset = "abcdefghijklmnopqrstuvwxyz" +
 	"ABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789"
 
-var seed *rand.Rand = rand.New(
-	rand.NewSource(time.Now().UnixNano()),
-)
+// intn returns a random number in [0,n).
+func intn(n int) int {
+	i, err := rand.Int(rand.Reader, big.NewInt(int64(n)))
+	if err != nil {
+		panic(err)
+	}
+	return int(i.Int64())
+}
 
 func gen(length int, charset string) string {
 	b := make([]byte, length)
 	for i := range b {
-		b[i] = charset[seed.Intn(len(charset))]
+		b[i] = charset[intn(len(charset))]
 	}
 	return string(b)
 }
@@ -46,10 +51,13 @@ func GetRandomString(i int) string {
 // random lenght is bounded by a and b.
 func GetRandomStringFromRange(a, b int) string {
 	var i int
-	if a > b {
-		i = rand.Intn(a-b) + b
-	} else {
-		i = rand.Intn(b-a) + a
+	switch {
+	case a > b:
+		i = intn(a-b) + b
+	case a < b:
+		i = intn(b-a) + a
+	default:
+		i = a
 	}
 	return gen(i, charset)
 }
diff --git a/uuid.go b/uuid.go
index 42b8011..5fabfc5 100644
--- a/uuid.go
+++ b/uuid.go
@@ -16,7 +16,6 @@ package identity
 
 import (
 	"github.com/satori/go.uuid"
-	"math/rand"
 	"strings"
 )
 
@@ -33,7 +32,7 @@ func NewRandomString(length int) string {
 	}
 	var b strings.Builder
 	for i := 0; i < length; i++ {
-		b.WriteRune(chars[rand.Intn(len(chars))])
+		b.WriteRune(chars[intn(len(chars))])
 	}
 	return b.String()
 }
-- 
2.43.0


From 0b184f4af8a566a00e73f6104b77da2218e46b8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:04 +0000
Subject: [PATCH 14/29] fix: expand home directory when creating and copying
 the database

The database at ~/path was created in the directory called ~, but was being
read from the home directory.
---
 database.go            | 10 +++++++++-
 internal/utils/file.go |  8 +++++---
 2 files changed, 14 insertions(+), 4 deletions(-)

diff --git a/database.go b/database.go
index fb48cc7..c1d3d46 100644
--- a/database.go
+++ b/database.go
@@ -112,6 +112,10 @@ type Database struct {
 
 // NewDatabase return an instance of Database.
 func NewDatabase(fp string) (*Database, error) {
+	fp, err := utils.ExpandHomePath(fp)
+	if err != nil {
+		return nil, errors.ErrNewDatabase.WithArgs(fp, err)
+	}
 	db := &Database{
 		mu:              &sync.RWMutex{},
 		path:            fp,
@@ -444,11 +448,15 @@ func (db *Database) Save() error {
 
 // Copy copies the database to another file.
 func (db *Database) Copy(fp string) error {
+	fp, err := utils.ExpandHomePath(fp)
+	if err != nil {
+		return errors.ErrDatabaseCommit.WithArgs(fp, err)
+	}
 	db.mu.Lock()
 	defer db.mu.Unlock()
 	path := db.path
 	db.path = fp
-	err := db.commit()
+	err = db.commit()
 	db.path = path
 	return err
 }
diff --git a/internal/utils/file.go b/internal/utils/file.go
index d4072cb..0b0bae8 100644
--- a/internal/utils/file.go
+++ b/internal/utils/file.go
@@ -18,10 +18,12 @@ import (
 	"io/ioutil"
 	"os"
 	"path/filepath"
+	"strings"
 )
 
-func expandHomePath(fp string) (string, error) {
-	if fp[0] != '~' {
+// ExpandHomePath expands home directory in a path.
+func ExpandHomePath(fp string) (string, error) {
+	if fp != "~" && !strings.HasPrefix(fp, "~/") {
 		return fp, nil
 	}
 	hd, err := os.UserHomeDir()
@@ -35,7 +37,7 @@ func expandHomePath(fp string) (string, error) {
 // ReadFileBytes expands home directory and reads a file.
 func ReadFileBytes(fp string) ([]byte, error) {
 	var err error
-	fp, err = expandHomePath(fp)
+	fp, err = ExpandHomePath(fp)
 	if err != nil {
 		return nil, err
 	}
-- 
2.43.0


From cb2af878b0f3a1c47a4317b98a07dbbe227fae46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:10 +0000
Subject: [PATCH 15/29] fix: validate the database file prior to adding default
 policy to it

The file failing the validation was being overwritten.
---
 database.go | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/database.go b/database.go
index c1d3d46..974db39 100644
--- a/database.go
+++ b/database.go
@@ -124,6 +124,7 @@ func NewDatabase(fp string) (*Database, error) {
 		refEmailAddress: make(map[string]*User),
 		refAPIKey:       make(map[string]*User),
 	}
+	var changed bool
 	fileInfo, err := os.Stat(fp)
 	if err != nil {
 		if !os.IsNotExist(err) {
@@ -148,11 +149,7 @@ func NewDatabase(fp string) (*Database, error) {
 		if err := json.Unmarshal(b, db); err != nil {
 			return nil, errors.ErrNewDatabase.WithArgs(fp, err)
 		}
-		if changed := db.enforceDefaultPolicy(); changed {
-			if err := db.commit(); err != nil {
-				return nil, errors.ErrNewDatabase.WithArgs(fp, err)
-			}
-		}
+		changed = db.enforceDefaultPolicy()
 	}
 
 	// db.mu = &sync.RWMutex{}
@@ -191,6 +188,11 @@ func NewDatabase(fp string) (*Database, error) {
 			db.refAPIKey[apiKey.Prefix] = user
 		}
 	}
+	if changed {
+		if err := db.commit(); err != nil {
+			return nil, errors.ErrNewDatabase.WithArgs(fp, err)
+		}
+	}
 	return db, nil
 }
 
-- 
2.43.0


From 21b7719d1a3d7f9294915d5231e48d9e6fcc5f46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:36 +0000
Subject: [PATCH 16/29] fix: undo the changes to the database that could not be
 saved

An operation failing to write the database file returned an error, yet its
changes remained in effect and would be saved by the next operation.
---
 database.go | 25 +++++++++++++++++++++++++
 user.go     | 15 +++++++++++++++
 2 files changed, 40 insertions(+)

diff --git a/database.go b/database.go
index 974db39..d85f862 100644
--- a/database.go
+++ b/database.go
@@ -301,6 +301,12 @@ func (db *Database) AddUser(r *requests.Request) error {
 	db.Users = append(db.Users, user)
 
 	if err := db.commit(); err != nil {
+		db.Users = db.Users[:len(db.Users)-1]
+		delete(db.refUsername, username)
+		delete(db.refID, user.ID)
+		for _, emailAddress := range emailAddresses {
+			delete(db.refEmailAddress, emailAddress)
+		}
 		return errors.ErrAddUser.WithArgs(username, err)
 	}
 	return nil
@@ -465,13 +471,16 @@ func (db *Database) Copy(fp string) error {
 
 // commit writes the database contents to a file.
 func (db *Database) commit() error {
+	revision, lastModified := db.Revision, db.LastModified
 	db.Revision++
 	db.LastModified = time.Now().UTC()
 	data, err := json.MarshalIndent(db, "", "  ")
 	if err != nil {
+		db.Revision, db.LastModified = revision, lastModified
 		return errors.ErrDatabaseCommit.WithArgs(db.path, err)
 	}
 	if err := ioutil.WriteFile(db.path, []byte(data), 0600); err != nil {
+		db.Revision, db.LastModified = revision, lastModified
 		return errors.ErrDatabaseCommit.WithArgs(db.path, err)
 	}
 	return nil
@@ -500,10 +509,12 @@ func (db *Database) AddPublicKey(r *requests.Request) error {
 	if err != nil {
 		return errors.ErrAddPublicKey.WithArgs(r.Key.Usage, err)
 	}
+	restore := user.backup()
 	if err := user.AddPublicKey(r); err != nil {
 		return err
 	}
 	if err := db.commit(); err != nil {
+		restore()
 		return errors.ErrAddPublicKey.WithArgs(r.Key.Usage, err)
 	}
 	return nil
@@ -539,10 +550,12 @@ func (db *Database) DeletePublicKey(r *requests.Request) error {
 	if err != nil {
 		return errors.ErrDeletePublicKey.WithArgs(r.Key.ID, err)
 	}
+	restore := user.backup()
 	if err := user.DeletePublicKey(r); err != nil {
 		return err
 	}
 	if err := db.commit(); err != nil {
+		restore()
 		return errors.ErrDeletePublicKey.WithArgs(r.Key.Usage, err)
 	}
 	return nil
@@ -556,6 +569,7 @@ func (db *Database) AddAPIKey(r *requests.Request) error {
 	if err != nil {
 		return errors.ErrAddAPIKey.WithArgs(r.Key.Usage, err)
 	}
+	restore := user.backup()
 	s := GetRandomStringFromRange(72, 96)
 	failCount := 0
 	for {
@@ -582,6 +596,8 @@ func (db *Database) AddAPIKey(r *requests.Request) error {
 	}
 
 	if err := db.commit(); err != nil {
+		restore()
+		delete(db.refAPIKey, r.Key.Prefix)
 		return errors.ErrAddAPIKey.WithArgs(r.Key.Usage, err)
 	}
 	return nil
@@ -595,11 +611,14 @@ func (db *Database) DeleteAPIKey(r *requests.Request) error {
 	if err != nil {
 		return errors.ErrDeleteAPIKey.WithArgs(r.Key.ID, err)
 	}
+	restore := user.backup()
 	if err := user.DeleteAPIKey(r); err != nil {
 		return err
 	}
 	delete(db.refAPIKey, r.Key.Prefix)
 	if err := db.commit(); err != nil {
+		restore()
+		db.refAPIKey[r.Key.Prefix] = user
 		return errors.ErrDeleteAPIKey.WithArgs(r.Key.Usage, err)
 	}
 	return nil
@@ -635,6 +654,7 @@ func (db *Database) ChangeUserPassword(r *requests.Request) error {
 	if err != nil {
 		return errors.ErrChangeUserPassword.WithArgs(err)
 	}
+	restore := user.backup()
 	if err := db.checkPasswordPolicyCompliance(r.User.Password); err != nil {
 		return errors.ErrChangeUserPassword.WithArgs(err)
 	}
@@ -643,6 +663,7 @@ func (db *Database) ChangeUserPassword(r *requests.Request) error {
 	}
 	// if db.Policy.Password.KeepVersions
 	if err := db.commit(); err != nil {
+		restore()
 		return errors.ErrChangeUserPassword.WithArgs(err)
 	}
 	return nil
@@ -705,10 +726,12 @@ func (db *Database) AddMfaToken(r *requests.Request) error {
 	if err != nil {
 		return errors.ErrAddMfaToken.WithArgs(err)
 	}
+	restore := user.backup()
 	if err := user.AddMfaToken(r); err != nil {
 		return err
 	}
 	if err := db.commit(); err != nil {
+		restore()
 		return errors.ErrAddMfaToken.WithArgs(err)
 	}
 	return nil
@@ -741,10 +764,12 @@ func (db *Database) DeleteMfaToken(r *requests.Request) error {
 	if err != nil {
 		return errors.ErrDeleteMfaToken.WithArgs(r.MfaToken.ID, err)
 	}
+	restore := user.backup()
 	if err := user.DeleteMfaToken(r); err != nil {
 		return err
 	}
 	if err := db.commit(); err != nil {
+		restore()
 		return errors.ErrDeleteMfaToken.WithArgs(r.MfaToken.ID, err)
 	}
 	return nil
diff --git a/user.go b/user.go
index 1418654..0b57ccd 100644
--- a/user.go
+++ b/user.go
@@ -555,6 +555,21 @@ func (user *User) ChangePassword(r *requests.Request, keepVersions int) error {
 	return nil
 }
 
+// backup returns a function restoring the user to its current state.
+func (user *User) backup() func() {
+	state := *user
+	passwords := []Password{}
+	for _, p := range user.Passwords {
+		passwords = append(passwords, *p)
+	}
+	return func() {
+		*user = state
+		for i, p := range user.Passwords {
+			*p = passwords[i]
+		}
+	}
+}
+
 // GetMetadata returns user metadata.
 func (user *User) GetMetadata() *UserMetadata {
 	m := &UserMetadata{
-- 
2.43.0


From e3e211ecbdcec769e29e9ab69427737ad0d2f61f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:42 +0000
Subject: [PATCH 17/29] fix: replace the database file atomically

The file was truncated prior to being written. A crash or a full disk in the
middle of that destroyed the database.
---
 database.go            |  3 +--
 internal/utils/file.go | 53 ++++++++++++++++++++++++++++++++++++++++++
 2 files changed, 54 insertions(+), 2 deletions(-)

diff --git a/database.go b/database.go
index d85f862..cc2e8e6 100644
--- a/database.go
+++ b/database.go
@@ -21,7 +21,6 @@ import (
 	"github.com/greenpau/go-identity/pkg/errors"
 	"github.com/greenpau/go-identity/pkg/requests"
 	"github.com/greenpau/versioned"
-	"io/ioutil"
 	"os"
 	"path/filepath"
 	"strings"
@@ -479,7 +478,7 @@ func (db *Database) commit() error {
 		db.Revision, db.LastModified = revision, lastModified
 		return errors.ErrDatabaseCommit.WithArgs(db.path, err)
 	}
-	if err := ioutil.WriteFile(db.path, []byte(data), 0600); err != nil {
+	if err := utils.WriteFileBytes(db.path, data, 0600); err != nil {
 		db.Revision, db.LastModified = revision, lastModified
 		return errors.ErrDatabaseCommit.WithArgs(db.path, err)
 	}
diff --git a/internal/utils/file.go b/internal/utils/file.go
index 0b0bae8..ebf97e7 100644
--- a/internal/utils/file.go
+++ b/internal/utils/file.go
@@ -43,3 +43,56 @@ func ReadFileBytes(fp string) ([]byte, error) {
 	}
 	return ioutil.ReadFile(fp)
 }
+
+// WriteFileBytes writes data to a file in such a way that a failure or a crash
+// at any point leaves either the previous or the new contents of the file.
+func WriteFileBytes(fp string, data []byte, perm os.FileMode) error {
+	if target, err := filepath.EvalSymlinks(fp); err == nil {
+		fp = target
+	}
+	f, err := os.OpenFile(fp, os.O_WRONLY, perm)
+	if err == nil {
+		fileInfo, err := f.Stat()
+		f.Close()
+		if err != nil {
+			return err
+		}
+		if !fileInfo.Mode().IsRegular() {
+			return ioutil.WriteFile(fp, data, perm)
+		}
+		perm = fileInfo.Mode().Perm()
+	} else if !os.IsNotExist(err) {
+		return err
+	}
+	dir := filepath.Dir(fp)
+	tmp, err := ioutil.TempFile(dir, "."+filepath.Base(fp)+".")
+	if err != nil {
+		if os.IsPermission(err) {
+			// The file is writable, but its directory is not.
+			return ioutil.WriteFile(fp, data, perm)
+		}
+		return err
+	}
+	_, err = tmp.Write(data)
+	if err == nil {
+		err = tmp.Chmod(perm)
+	}
+	if err == nil {
+		err = tmp.Sync()
+	}
+	if closeErr := tmp.Close(); err == nil {
+		err = closeErr
+	}
+	if err == nil {
+		err = os.Rename(tmp.Name(), fp)
+	}
+	if err != nil {
+		os.Remove(tmp.Name())
+		return err
+	}
+	if d, err := os.Open(dir); err == nil {
+		d.Sync()
+		d.Close()
+	}
+	return nil
+}
-- 
2.43.0


From 5976d07f5196a114ef734a25cadd7d04c421c413 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:13 +0000
Subject: [PATCH 18/29] fix: remove the newline from OpenSSH form of PEM public
 key

The same key had different OpenSSH forms depending on its original encoding.
---
 public_key.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/public_key.go b/public_key.go
index 4921ed9..0ff304f 100644
--- a/public_key.go
+++ b/public_key.go
@@ -276,6 +276,6 @@ func (p *PublicKey) parsePublicKeyRSA() error {
 	p.Fingerprint = ssh.FingerprintSHA256(publicKey)
 	p.Fingerprint = strings.ReplaceAll(p.Fingerprint, "SHA256:", "")
 	p.OpenSSH = string(ssh.MarshalAuthorizedKey(publicKey))
-	p.OpenSSH = strings.TrimLeft(p.OpenSSH, p.Type+" ")
+	p.OpenSSH = strings.TrimSpace(strings.TrimPrefix(p.OpenSSH, p.Type+" "))
 	return nil
 }
-- 
2.43.0


From 993c791f7afd7163e5639714e6ac2363fce21068 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:27 +0000
Subject: [PATCH 19/29] fix: reject text that the database is unable to store

JSON encoding replaces the bytes that are not valid UTF-8. The secrets and
usernames having them changed when the database was loaded from its file, and
different usernames became the same, which made the file invalid.
---
 database.go            | 24 ++++++++++++++++++++++++
 pkg/errors/database.go |  1 +
 2 files changed, 25 insertions(+)

diff --git a/database.go b/database.go
index cc2e8e6..5b18b91 100644
--- a/database.go
+++ b/database.go
@@ -26,6 +26,7 @@ import (
 	"strings"
 	"sync"
 	"time"
+	"unicode/utf8"
 )
 
 var (
@@ -247,6 +248,17 @@ func (db *Database) checkPasswordPolicyCompliance(s string) error {
 	return nil
 }
 
+// checkText returns an error when the database is unable to store provided
+// strings, because JSON strings consist of Unicode characters.
+func checkText(arr ...string) error {
+	for _, s := range arr {
+		if !utf8.ValidString(s) {
+			return errors.ErrDatabaseInvalidText
+		}
+	}
+	return nil
+}
+
 // GetPath returns the path  to Database.
 func (db *Database) GetPath() string {
 	db.mu.RLock()
@@ -262,6 +274,9 @@ func (db *Database) AddUser(r *requests.Request) error {
 	if err := db.checkPolicyCompliance(r.User.Username, r.User.Password); err != nil {
 		return errors.ErrAddUser.WithArgs(r.User.Username, err)
 	}
+	if err := checkText(append([]string{r.User.Username, r.User.FullName}, r.User.Roles...)...); err != nil {
+		return errors.ErrAddUser.WithArgs(r.User.Username, err)
+	}
 
 	user, err := NewUserWithRoles(
 		r.User.Username, r.User.Password,
@@ -508,6 +523,9 @@ func (db *Database) AddPublicKey(r *requests.Request) error {
 	if err != nil {
 		return errors.ErrAddPublicKey.WithArgs(r.Key.Usage, err)
 	}
+	if err := checkText(r.Key.Comment, r.Key.Payload); err != nil {
+		return errors.ErrAddPublicKey.WithArgs(r.Key.Usage, err)
+	}
 	restore := user.backup()
 	if err := user.AddPublicKey(r); err != nil {
 		return err
@@ -568,6 +586,9 @@ func (db *Database) AddAPIKey(r *requests.Request) error {
 	if err != nil {
 		return errors.ErrAddAPIKey.WithArgs(r.Key.Usage, err)
 	}
+	if err := checkText(r.Key.Comment); err != nil {
+		return errors.ErrAddAPIKey.WithArgs(r.Key.Usage, err)
+	}
 	restore := user.backup()
 	s := GetRandomStringFromRange(72, 96)
 	failCount := 0
@@ -725,6 +746,9 @@ func (db *Database) AddMfaToken(r *requests.Request) error {
 	if err != nil {
 		return errors.ErrAddMfaToken.WithArgs(err)
 	}
+	if err := checkText(r.MfaToken.Comment, r.MfaToken.Secret, r.WebAuthn.Challenge); err != nil {
+		return errors.ErrAddMfaToken.WithArgs(err)
+	}
 	restore := user.backup()
 	if err := user.AddMfaToken(r); err != nil {
 		return err
diff --git a/pkg/errors/database.go b/pkg/errors/database.go
index cb66322..123f7d7 100644
--- a/pkg/errors/database.go
+++ b/pkg/errors/database.go
@@ -24,6 +24,7 @@ const (
 	ErrNewDatabaseDuplicateAPIKey StandardError = "failed initializing database: found duplicate api key %s, %v"
 
 	ErrDatabaseCommit       StandardError = "failed database commit to %q: %v"
+	ErrDatabaseInvalidText  StandardError = "found text that is not valid UTF-8"
 	ErrDatabaseOperation    StandardError = "database operation failed: %v"
 	ErrDatabaseInvalidUser  StandardError = "username and email point to a different identity in the database"
 	ErrDatabaseUserNotFound StandardError = "user not found"
-- 
2.43.0


From 5b2b2428c5581e27b9c82d8a8ad1eba616e90916 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:33 +0000
Subject: [PATCH 20/29] fix: hash any password of an unknown user

The passwords consisting of spaces were not being hashed, which disclosed
whether a user existed.
---
 database.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/database.go b/database.go
index 5b18b91..b177bbf 100644
--- a/database.go
+++ b/database.go
@@ -385,7 +385,10 @@ func (db *Database) AuthenticateUser(r *requests.Request) error {
 	if err != nil {
 		r.Response.Code = 400
 		// Calculate password hash as the means to prevent user discovery.
-		NewPassword(r.User.Password)
+		if r.User.Password != "" {
+			// The prefix is for the passwords being rejected without hashing.
+			NewPassword("x" + r.User.Password)
+		}
 		return errors.ErrAuthFailed.WithArgs(err)
 	}
 
-- 
2.43.0


From e1e374a1e3742ead46b2a064ea5e19a2897e36e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:28 +0000
Subject: [PATCH 21/29] fix: recognize OpenSSH key regardless of its comment
 and leading space

The key having the words "RSA PUBLIC KEY" in its comment was handled as PEM.
---
 public_key.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/public_key.go b/public_key.go
index 0ff304f..ffbfb8f 100644
--- a/public_key.go
+++ b/public_key.go
@@ -118,10 +118,10 @@ func (p *PublicKey) parse() error {
 		return errors.ErrPublicKeyEmptyPayload
 	}
 	switch {
+	case strings.HasPrefix(strings.TrimSpace(p.Payload), "ssh-rsa "):
+		return p.parsePublicKeyOpenSSH()
 	case strings.Contains(p.Payload, "RSA PUBLIC KEY"):
 		return p.parsePublicKeyRSA()
-	case strings.HasPrefix(p.Payload, "ssh-rsa "):
-		return p.parsePublicKeyOpenSSH()
 	case strings.Contains(p.Payload, "BEGIN PGP PUBLIC KEY BLOCK"):
 		return p.parsePublicKeyPGP()
 	}
-- 
2.43.0


From ee0cd05c2270b0d159e183eecd185dc1511b9bb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:34 +0000
Subject: [PATCH 22/29] fix: reject public keys other than RSA in RSA PUBLIC
 KEY blocks

The OpenSSH form of the same keys is being rejected.
---
 public_key.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/public_key.go b/public_key.go
index ffbfb8f..2fc2c3d 100644
--- a/public_key.go
+++ b/public_key.go
@@ -267,6 +267,9 @@ func (p *PublicKey) parsePublicKeyRSA() error {
 	if err != nil {
 		return errors.ErrPublicKeyParse.WithArgs(err)
 	}
+	if _, ok := publicKeyInterface.(*rsa.PublicKey); !ok {
+		return errors.ErrPublicKeyTypeUnsupported.WithArgs(fmt.Sprintf("%T", publicKeyInterface))
+	}
 	publicKey, err := ssh.NewPublicKey(publicKeyInterface)
 	if err != nil {
 		return fmt.Errorf("failed ssh.NewPublicKey: %s", err)
-- 
2.43.0


From 1f78ccc2f6c4a221c745cfc31c194587a7c883f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:49:06 +0000
Subject: [PATCH 23/29] fix: drop the previous provisioning code when the build
 fails

---
 pkg/qr/qr.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pkg/qr/qr.go b/pkg/qr/qr.go
index 8056ea0..dec7ca6 100644
--- a/pkg/qr/qr.go
+++ b/pkg/qr/qr.go
@@ -88,6 +88,8 @@ func (c *Code) validate() error {
 
 // Build validates and build QR code.
 func (c *Code) Build() error {
+	// A failed build must not leave the previously built code behind.
+	c.text, c.encoded = "", ""
 	if err := c.validate(); err != nil {
 		return err
 	}
-- 
2.43.0


From 4fc744e0b979cc5e736cb68efee229353ae163be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:07:09 +0000
Subject: [PATCH 24/29] fix: refuse files with empty names, organizations or
 addresses

---
 user.go | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/user.go b/user.go
index 0b57ccd..996a7dc 100644
--- a/user.go
+++ b/user.go
@@ -145,6 +145,21 @@ func (user *User) Valid() error {
 	if len(user.Passwords) < 1 {
 		return errors.ErrUserPasswordNotFound
 	}
+	for _, n := range user.Names {
+		if n == nil {
+			return errors.ErrUserEntryEmpty.WithArgs("name")
+		}
+	}
+	for _, o := range user.Organizations {
+		if o == nil {
+			return errors.ErrUserEntryEmpty.WithArgs("organization")
+		}
+	}
+	for _, a := range user.StreetAddress {
+		if a == nil {
+			return errors.ErrUserEntryEmpty.WithArgs("street address")
+		}
+	}
 	for _, p := range user.Passwords {
 		if p == nil {
 			return errors.ErrUserEntryEmpty.WithArgs("password")
-- 
2.43.0


From 9683ed12f083950761fb077191cbab4c7c1244b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:11:09 +0000
Subject: [PATCH 25/29] fix: refuse OpenSSH keys with a negative modulus

---
 public_key.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/public_key.go b/public_key.go
index 2fc2c3d..7369bcf 100644
--- a/public_key.go
+++ b/public_key.go
@@ -182,6 +182,10 @@ func (p *PublicKey) parsePublicKeyOpenSSH() error {
 		if err != nil {
 			return errors.ErrPublicKeyParse.WithArgs(err)
 		}
+		// The ssh package accepts numbers that do not make a valid key.
+		if _, err := x509.ParsePKIXPublicKey(rsaKeyASN1); err != nil {
+			return errors.ErrPublicKeyParse.WithArgs(err)
+		}
 		encodedKey := pem.EncodeToMemory(&pem.Block{
 			Type: "RSA PUBLIC KEY",
 			//Bytes: x509.MarshalPKCS1PublicKey(rsaKey),
-- 
2.43.0


From c4619ee6263dc1d7ba6ce55ae80436510eee2968 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:14:20 +0000
Subject: [PATCH 26/29] fix: store OpenSSH keys in their canonical encoding

---
 public_key.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/public_key.go b/public_key.go
index 7369bcf..e4ea163 100644
--- a/public_key.go
+++ b/public_key.go
@@ -171,6 +171,8 @@ func (p *PublicKey) parsePublicKeyOpenSSH() error {
 	switch publicKey.Type() {
 	case "ssh-rsa":
 		publicKeyBytes := publicKey.Marshal()
+		// Store the canonical encoding, i.e. the one the fingerprints are of.
+		p.OpenSSH = base64.StdEncoding.EncodeToString(publicKeyBytes)
 		parsedPublicKey, err := ssh.ParsePublicKey(publicKeyBytes)
 		if err != nil {
 			return errors.ErrPublicKeyParse.WithArgs(err)
-- 
2.43.0


From cf5fc386f40248dbad26ae93239f77e77b1457b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:48 +0000
Subject: [PATCH 27/29] fix: make the directories created for a database
 outlast a crash

---
 database.go            |  2 +-
 internal/utils/file.go | 26 +++++++++++++++++++++++++-
 2 files changed, 26 insertions(+), 2 deletions(-)

diff --git a/database.go b/database.go
index b177bbf..a2869fd 100644
--- a/database.go
+++ b/database.go
@@ -130,7 +130,7 @@ func NewDatabase(fp string) (*Database, error) {
 		if !os.IsNotExist(err) {
 			return nil, errors.ErrNewDatabase.WithArgs(fp, err)
 		}
-		if err := os.MkdirAll(filepath.Dir(fp), 0700); err != nil {
+		if err := utils.MakeDirectory(filepath.Dir(fp), 0700); err != nil {
 			return nil, errors.ErrNewDatabase.WithArgs(fp, err)
 		}
 		db.Version = app.Version
diff --git a/internal/utils/file.go b/internal/utils/file.go
index ebf97e7..388ab2f 100644
--- a/internal/utils/file.go
+++ b/internal/utils/file.go
@@ -90,9 +90,33 @@ func WriteFileBytes(fp string, data []byte, perm os.FileMode) error {
 		os.Remove(tmp.Name())
 		return err
 	}
+	syncDirectory(dir)
+	return nil
+}
+
+// MakeDirectory creates a directory, along with any necessary parents, in such
+// a way that they outlast a crash.
+func MakeDirectory(dir string, perm os.FileMode) error {
+	var parents []string
+	for p := filepath.Clean(dir); ; p = filepath.Dir(p) {
+		if _, err := os.Stat(p); !os.IsNotExist(err) || p == filepath.Dir(p) {
+			break
+		}
+		parents = append(parents, filepath.Dir(p))
+	}
+	if err := os.MkdirAll(dir, perm); err != nil {
+		return err
+	}
+	for _, p := range parents {
+		syncDirectory(p)
+	}
+	return nil
+}
+
+// syncDirectory makes sure that the entries of a directory outlast a crash.
+func syncDirectory(dir string) {
 	if d, err := os.Open(dir); err == nil {
 		d.Sync()
 		d.Close()
 	}
-	return nil
 }
-- 
2.43.0


From b807b7d32acbf5454ce99438814fe1f05c5308d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:29 +0000
Subject: [PATCH 28/29] fix: hand out a copy of the user, which later changes
 do not touch

---
 database.go |  2 +-
 user.go     | 11 +++++++++++
 2 files changed, 12 insertions(+), 1 deletion(-)

diff --git a/database.go b/database.go
index a2869fd..dc7bc94 100644
--- a/database.go
+++ b/database.go
@@ -350,7 +350,7 @@ func (db *Database) GetUser(r *requests.Request) error {
 	if err != nil {
 		return errors.ErrGetUsers.WithArgs(err)
 	}
-	r.Response.Payload = user
+	r.Response.Payload = user.snapshot()
 	return nil
 }
 
diff --git a/user.go b/user.go
index 996a7dc..b406c39 100644
--- a/user.go
+++ b/user.go
@@ -585,6 +585,17 @@ func (user *User) backup() func() {
 	}
 }
 
+// snapshot returns a copy of the user which is unaffected by later changes.
+func (user *User) snapshot() *User {
+	state := *user
+	state.Passwords = make([]*Password, len(user.Passwords))
+	for i, p := range user.Passwords {
+		password := *p
+		state.Passwords[i] = &password
+	}
+	return &state
+}
+
 // GetMetadata returns user metadata.
 func (user *User) GetMetadata() *UserMetadata {
 	m := &UserMetadata{
-- 
2.43.0


From 2156fdda33a011394e241c6de874216854f6f191 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:23:37 +0000
Subject: [PATCH 29/29] fix: tell the first name of a user by its revision

---
 user.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/user.go b/user.go
index b406c39..28308e1 100644
--- a/user.go
+++ b/user.go
@@ -406,6 +406,7 @@ func (user *User) AddName(name *Name) error {
 	if len(user.Names) == 0 {
 		user.Name = name
 		user.Names = append(user.Names, name)
+		user.Revise()
 		return nil
 	}
 	for _, n := range user.Names {
-- 
2.43.0

