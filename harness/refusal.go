package main

import (
	goerrors "errors"
	"fmt"
	"math/rand"
	"regexp"
	"sort"
	"strings"

	"github.com/greenpau/go-identity/pkg/errors"
)

// What a refusal says: whether it is recognisable as one of its operation, and
// which of the library's own reasons are in its text.

var sentinels = map[string][]errors.StandardError{
	"AddUser": {errors.ErrAddUser}, "ChangeUserPassword": {errors.ErrChangeUserPassword}, "AuthenticateUser": {errors.ErrAuthFailed},
	"GetUsers": {errors.ErrGetUsers}, "GetUser": {errors.StandardError("failed retrieving user %q: %v"), errors.ErrGetUsers}, "DeleteUser": {errors.ErrDeleteUser},
	"AddAPIKey": {errors.ErrAddAPIKey}, "DeleteAPIKey": {errors.ErrDeleteAPIKey}, "GetAPIKeys": {errors.ErrGetAPIKeys},
	"LookupAPIKey": {errors.ErrLookupAPIKeyFailed, errors.ErrLookupAPIKeyMalformedPayload, errors.ErrLookupAPIKeyPayloadEmpty},
	"AddPublicKey": {errors.ErrAddPublicKey}, "DeletePublicKey": {errors.ErrDeletePublicKey}, "GetPublicKeys": {errors.ErrGetPublicKeys},
	"AddMfaToken": {errors.ErrAddMfaToken}, "DeleteMfaToken": {errors.ErrDeleteMfaToken}, "GetMfaTokens": {errors.ErrGetMfaTokens},
	"Save": {errors.ErrDatabaseCommit}, "Copy": {errors.ErrDatabaseCommit},
	"Reload": opening, "Open": opening,
}

var opening = []errors.StandardError{errors.ErrNewDatabase, errors.ErrNewDatabaseInvalidUser, errors.ErrNewDatabaseDuplicateUser,
	errors.ErrNewDatabaseDuplicateUserID, errors.ErrNewDatabaseDuplicateEmail, errors.ErrNewDatabaseDuplicateAPIKey}

// reasons are texts with verbs. The names are those of the specification.
var reasons = map[string]string{
	"key empty": string(errors.ErrAPIKeyPayloadEmpty), "api usage empty": string(errors.ErrAPIKeyUsageEmpty), "api comment": string(errors.ErrAPIKeyCommentEmpty),
	"api usage": string(errors.ErrAPIKeyUsageUnsupported), "key failed": string(errors.ErrLookupAPIKeyFailed), "key malformed": string(errors.ErrLookupAPIKeyMalformedPayload),
	"commit": string(errors.ErrDatabaseCommit), "utf8": string(errors.ErrDatabaseInvalidText), "differ": string(errors.ErrDatabaseInvalidUser),
	"no user": string(errors.ErrDatabaseUserNotFound), "no password": string(errors.ErrUserPasswordNotFound), "password": string(errors.ErrUserPasswordInvalid),
	"user policy": string(errors.ErrUserPolicyCompliance), "password policy": string(errors.ErrPasswordPolicyCompliance), "blank": string(errors.ErrPasswordEmpty),
	"other": string(errors.ErrPasswordEmptyAlgorithm), "id length": string(errors.ErrUserIDInvalidLength), "username": string(errors.ErrUsernameEmpty),
	"null user": string(errors.ErrUserEmpty), "null entry": string(errors.ErrUserEntryEmpty), "email": string(errors.ErrEmailAddressInvalid),
	"role": string(errors.ErrRoleEmpty), "name": string(errors.ErrParseNameFailed),
	"same secret": string(errors.ErrDuplicateMfaTokenSecret), "same comment": string(errors.ErrDuplicateMfaTokenComment),
	"type empty": string(errors.ErrMfaTokenTypeEmpty), "type": string(errors.ErrMfaTokenInvalidType), "algorithm": string(errors.ErrMfaTokenInvalidAlgorithm),
	"period": string(errors.ErrMfaTokenInvalidPeriod), "digits": string(errors.ErrMfaTokenInvalidDigits), "code": string(errors.ErrMfaTokenInvalidPasscode),
	"challenge": string(errors.ErrWebAuthnChallengeNotFound), "registration": string(errors.ErrWebAuthnRegisterNotFound), "document": string(errors.ErrWebAuthnParse),
	"register id": string(errors.ErrWebAuthnEmptyRegisterID), "register type empty": string(errors.ErrWebAuthnEmptyRegisterKeyType),
	"register type": string(errors.ErrWebAuthnInvalidRegisterKeyType), "register transport empty": string(errors.ErrWebAuthnEmptyRegisterTransport),
	"register transport": string(errors.ErrWebAuthnInvalidRegisterTransport), "register object": string(errors.ErrWebAuthnRegisterAttestationObjectNotFound),
	"register data": string(errors.ErrWebAuthnRegisterAuthDataNotFound), "register credential": string(errors.ErrWebAuthnRegisterCredentialDataNotFound),
	"register party": string(errors.ErrWebAuthnRegisterEmptyRelyingPartyID), "register flags": string(errors.ErrWebAuthnRegisterEmptyFlags),
	"register key": string(errors.ErrWebAuthnRegisterPublicKeyNotFound), "register key type": string(errors.ErrWebAuthnRegisterPublicKeyUnsupported),
	"register no key type": string(errors.ErrWebAuthnRegisterPublicKeyTypeNotFound), "register algorithm": string(errors.ErrWebAuthnRegisterPublicKeyAlgorithmUnsupported),
	"register no algorithm": string(errors.ErrWebAuthnRegisterPublicKeyAlgorithmNotFound), "register curve": string(errors.ErrWebAuthnRegisterPublicKeyCurveUnsupported),
	"register kind": string(errors.ErrWebAuthnRegisterPublicKeyTypeAlgorithmUnsupported), "register point": string(errors.ErrWebAuthnRegisterPublicKeyCurveCoord),
	"register x": strings.Replace(string(errors.ErrWebAuthnRegisterPublicKeyCurveCoord), "%v", "x", 1),
	"register y": strings.Replace(string(errors.ErrWebAuthnRegisterPublicKeyCurveCoord), "%v", "y", 1),
	"assertion":  string(errors.ErrWebAuthnRequest), "login": string(errors.ErrWebAuthnVerifyRequest),
	"key payload": string(errors.ErrPublicKeyEmptyPayload), "key usage": string(errors.ErrPublicKeyInvalidUsage), "key mismatch": string(errors.ErrPublicKeyUsagePayloadMismatch),
	"key unsupported": string(errors.ErrPublicKeyUsageUnsupported), "key block": string(errors.ErrPublicKeyBlockType), "key parse": string(errors.ErrPublicKeyParse), "key type": string(errors.ErrPublicKeyTypeUnsupported),
	// reasons without a constant
	"username taken": "username already in use", "email taken": "email address already in use", "unsupported": "user delete operation is not supported",
	"malformed": "malformed auth request", "key exists": "public key: already exists", "no id": "key: not found", "no token": "\": not found",
}

type reason struct {
	name string
	re   *regexp.Regexp
	size int
}

var verbs = regexp.MustCompile(`%[a-zA-Z]`)

var reasonList = func() []reason {
	a := []reason{}
	for k, s := range reasons {
		ps := verbs.Split(s, -1)
		n := 0
		for i, p := range ps {
			n += len(p)
			ps[i] = regexp.QuoteMeta(p)
		}
		a = append(a, reason{k, regexp.MustCompile(`(?s)` + strings.Join(ps, ".*")), n})
	}
	sort.Slice(a, func(i, j int) bool {
		if a[i].size != a[j].size {
			return a[i].size > a[j].size
		}
		return a[i].name < a[j].name
	})
	return a
}()

// says lists the reasons in a text; of those one contains another, the longer.
// What the caller gave is not looked at, where it is quoted.
func says(text string, given ...string) []string {
	for _, g := range given {
		text = strings.ReplaceAll(text, fmt.Sprintf("%q", g), `""`)
	}
	r := []string{}
	for _, x := range reasonList {
		if loc := x.re.FindStringIndex(text); loc != nil {
			r = append(r, x.name)
			if strings.HasSuffix(x.re.String(), ".*") {
				text = text[:loc[0]]
			} else {
				text = text[:loc[0]] + "\x00" + text[loc[1]:]
			}
		}
	}
	return r
}

func refusal(op string, err error, given ...string) M {
	home := false
	for _, s := range sentinels[op] {
		home = home || goerrors.Is(err, s)
	}
	return M{"home": home, "says": says(err.Error(), given...)}
}

// openingKind tells which error of opening a database one is, and what it says.
func openingKind(cause interface{}) (string, []string) {
	err, ok := cause.(error)
	if !ok || err == nil {
		return "", []string{}
	}
	ks := []string{}
	for i, s := range opening {
		if goerrors.Is(err, s) {
			ks = append(ks, []string{"any", "user", "username", "id", "email", "prefix"}[i])
		}
	}
	return strings.Join(ks, " "), says(err.Error())
}

// given lists the texts of a request that errors may repeat.
func (o *Op) given() []string {
	return append([]string{o.Un, o.Em, o.Fn, o.Us, o.Cm, o.ID, o.Al, o.Ty, o.Payload}, o.Roles...)
}

// echoes counts the secrets of a request that a text has, which are not also a
// part of something else that was given.
func (o *Op) echoes(text string) int {
	n := 0
	for _, s := range []string{o.Pw, o.Old, o.Payload, o.Code} {
		if len(strings.TrimSpace(s)) < 6 || !strings.Contains(text, s) {
			continue
		}
		other := false
		for _, g := range []string{o.Un, o.Em, o.Fn, o.Us, o.Cm, o.ID, o.Al, o.Ty, strings.Join(o.Roles, " ")} {
			other = other || strings.Contains(g, s)
		}
		if !other {
			n++
		}
	}
	return n
}

// cmdSentinel makes errors of sentinels.
func cmdSentinel(c *Ctx) {
	c.table(func(tr *Trace, r *rand.Rand) {
		run := func(m M) {
			text, args := "", []interface{}{}
			for _, p := range m["parts"].([]interface{}) {
				q := M(p.(map[string]interface{}))
				text += q.str("lit")
				if q.str("verb") != "" {
					text += "%" + q.str("verb")
				}
			}
			s := errors.StandardError(text)
			inner := errors.StandardError("inner")
			for _, p := range m["args"].([]interface{}) {
				q := M(p.(map[string]interface{}))
				switch q.str("k") {
				case "text":
					args = append(args, q.str("v"))
				case "int":
					args = append(args, q.num("n"))
				case "error":
					args = append(args, goerrors.New(q.str("v")))
				case "inner":
					args = append(args, inner.WithArgs("x"))
				case "nil":
					args = append(args, nil)
				}
			}
			rec := M{"parts": m["parts"], "args": m["args"], "nil": false, "is": false, "same": false, "other": false, "text": "", "twice": "", "sentinel": s.Error() == text, "wrapped": false}
			var err error
			outcome(rec, func() error {
				err = s.WithArgs(args...)
				rec["nil"] = err == nil
				if err != nil {
					rec["is"] = goerrors.Is(err, s)
					rec["other"] = goerrors.Is(err, errors.StandardError(text+"?"))
					rec["text"] = err.Error()
					rec["twice"] = err.Error()
					w := fmt.Errorf("wrapped: %w", err)
					rec["wrapped"] = goerrors.Is(w, s)
				}
				return nil
			})
			tr.Emit(rec)
		}
		for _, m := range c.cases() {
			run(m)
		}
		words := []string{"a", "key", "x y", "100", "user@host", "", "%"}
		for i := 0; i < c.steps; i++ {
			parts, args := []interface{}{}, []interface{}{}
			n := r.Intn(5)
			for k := 0; k < n; k++ {
				v := pick(r, []string{"v", "s", "q", "d", "v"})
				parts = append(parts, map[string]interface{}{"lit": pick(r, []string{"failed ", "at ", ": ", "", "user "}), "verb": v})
				a := map[string]interface{}{"k": "text", "v": pick(r, words), "n": 0.0}
				if v == "d" {
					a = map[string]interface{}{"k": "int", "v": "", "n": float64(r.Intn(2000) - 1000)}
				} else if v == "v" && r.Intn(2) == 0 {
					a["k"] = "error"
				} else if v == "v" && r.Intn(8) == 0 {
					a["k"], a["v"] = "nil", ""
				}
				args = append(args, a)
			}
			parts = append(parts, map[string]interface{}{"lit": pick(r, []string{"", " end", "."}), "verb": ""})
			run(M{"parts": parts, "args": args})
		}
	})
}
