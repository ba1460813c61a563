import json
P=[]
def p(id,title,statement,over,text,why,files,mech,observe=None,state=None):
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,state=[dict(name=a,meaning=b,where=c) for a,b,c in (state or [])],
        mechanism=[dict(name=a,where=b) for a,b in mech],observe_at=observe or [],hook_needed=None)))
db='database.go'; us='user.go'
p('C01','Identities stay unique across the database',
 'At no time do two users of a database have the same id, or the same username or email address compared without regard to letter case, nor do two API keys have the same lookup prefix. Adding a user whose username or email address is already taken, in whatever letter case, fails and leaves every existing user as it was; a username and an email address that are free can always be added again by a well-formed request.',
 ['histories','inputs'],'every sequence of API calls and reloads, every spelling (letter case, non-ASCII letters) of usernames and emails, including databases whose file already has several emails and keys per user',
 'the tests add two fixed users and retry one exact username and one exact email; they never vary the letter case, reload in between, or look at keys of different users',
 [db,us],[('AddUser checks lower-cased reference maps','database.go AddUser'),('NewDatabase rebuilds the maps and rejects duplicates','database.go NewDatabase')],
 ['Database.Users','results of AddUser','result of NewDatabase on the saved file'],[('refUsername, refEmailAddress, refID, refAPIKey','lower-cased lookup maps','database.go Database')])
p('C02','Password login accepts exactly the current password of the named user',
 'A password login succeeds (response code 200) exactly when the given name designates an existing user, by username or - when the name contains @ - by any of the user\'s email addresses, both regardless of letter case, and the given password is byte for byte a password of that user that is neither disabled nor expired. Any other attempt - a previous password, another user\'s password, a variant in letter case or surrounding white space, an empty one - fails with an error and response code 400. The answer is the same before and after the database is reloaded from its file.',
 ['histories','inputs'],'all histories of adding users, changing passwords, reloading, and all names and passwords, including white space, non-ASCII, NUL and passwords up to the policy maximum',
 'the tests log in with two fixed users and one wrong password; no history with changed passwords, no near-miss password and no reload is tried',
 [db,us,'password.go'],[('resolution by @','database.go getUser'),('only enabled and unexpired passwords are compared','user.go VerifyPassword'),('bcrypt','password.go hash, Match')],
 ['result and response code of AuthenticateUser'])
p('C03','Password change needs the old password and retires it',
 'Changing a password succeeds only when the supplied old password is currently valid for that user and the new one satisfies the policy; from then on exactly the new password is valid for that user. The replaced passwords are kept, disabled, most recent first, never more of them than the configured number of versions, and none of those within that number is lost. A refused change leaves the valid password and the whole history as they were.',
 ['histories','inputs','configurations'],'all sequences of successful and refused changes, for every keep-versions setting and any number of stored passwords in the loaded file',
 'the tests change a password once and check the error text; the history bound needs more changes than keep-versions allows and is never reached',
 [db,us,'password.go'],[('VerifyPassword before AddPassword','user.go ChangePassword'),('history truncation and disabling','user.go AddPassword'),('policy','database.go ChangeUserPassword')],
 ['User.Passwords','AuthenticateUser after each change'],[('Passwords','current password first, then disabled history','user.go User')])
p('C04','Operations touch only the user that both username and email designate',
 'An operation on behalf of a user (listing users, reading or changing the user, its password, keys or MFA tokens) is performed only when the given username and the given email address both designate the same existing user, in any letter case; otherwise it fails and reveals and changes nothing. When performed, it reads and changes that user only: every other user, including its keys, tokens and passwords, stays exactly as it was, even when the operation names an id that belongs to another user.',
 ['histories','inputs'],'all pairs of username and email (existing, crossed between users, unknown, secondary emails, letter-case variants), all operations, all histories',
 'tests use one user with matching email and one mismatch for one operation; they never compare the other users afterwards nor use ids owned by somebody else',
 [db,us],[('validateUserIdentity','database.go')],['result of each operation','Database.Users before and after'])
p('C05','API keys: issued once, valid until deleted, identify their owner',
 'Every successful request for an API key returns a fresh secret that from then on is accepted by the lookup and resolves to the username and email of the user it was issued to, as long as the key is stored and neither disabled nor expired, across reloads. Any other string is rejected: a deleted, disabled or expired key, a key with any part altered, a stored hash, a key prefix. Listing shows exactly the user\'s keys of the requested usage that are not disabled, in the order of issue; deleting by id removes exactly that key of that user and fails for an id the user does not have.',
 ['histories','inputs'],'all histories of issue, list, delete, lookup and reload for several users, and all lookup payloads derived from issued keys',
 'tests issue one or two keys, look one up and delete it; lookups after delete, after reload, of disabled keys, or with altered payloads are not tried',
 ['api_key.go',db,us],[('prefix index and bcrypt hash','database.go AddAPIKey, LookupAPIKey'),('index cleaned on delete','database.go DeleteAPIKey'),('disabled keys rejected','user.go LookupAPIKey')],
 ['LookupAPIKey','GetAPIKeys','User.APIKeys'],[('refAPIKey','key prefix to user','database.go Database')])
p('C06','Public keys: stored once per user, listed by usage, deleted by id',
 'A well-formed RSA key (PEM or OpenSSH form, usage ssh) or PGP key (usage gpg) is added exactly when its form matches the requested usage and the same user has no equal key yet, whatever form either was given in; a refused key changes nothing. Listing shows exactly the user\'s keys of the requested usage that are not disabled, in the order they were added; deleting by id removes exactly the keys having that id from that user and fails when there are none.',
 ['histories','inputs'],'all histories over several users of adding keys in every form, comment and usage, listing, deleting and re-adding, and reloading',
 'tests add a fixed list of keys in one form each; duplicates across forms, wrong usages, and delete/re-add histories are not covered',
 ['public_key.go',us,db],[('parse by form','public_key.go parse'),('duplicate detection','user.go AddPublicKey'),('DeletePublicKey','user.go')],
 ['GetPublicKeys','User.PublicKeys'])
p('C07','MFA tokens: lifecycle, flags and challenges agree',
 'An MFA token is added exactly when it is valid for its type and its secret and its comment both differ from those of every token the user already has; listing shows exactly the user\'s tokens that are not disabled, in the order added; deleting by id removes exactly that token and fails for an unknown id. Identifying a user asks for the mfa challenge after the password challenge exactly when the user has a token that is not disabled, and the reported flags (configured, app, universal) state exactly which kinds of such tokens exist - for every user, after every history and reload.',
 ['histories','inputs'],'all histories of adding (totp and u2f, enabled and disabled), deleting, identifying with flags on and off, and reloading for several users',
 'tests add tokens one after another for one user and check only the size; disabled tokens, mixed kinds, deletions and their effect on flags and challenges are not explored',
 ['mfa_token.go',us,db],[('duplicates','user.go AddMfaToken'),('flags','user.go GetFlags'),('challenges','user.go GetChallenges'),('IdentifyUser','database.go')],
 ['GetMfaTokens','IdentifyUser flags and challenges','User.MfaTokens'])
p('C08','TOTP codes: right parameters, right window, nothing else',
 'A TOTP code is accepted at a time exactly when, apart from surrounding white space, it is the RFC 6238 code for the token\'s secret, hash, number of digits and period, for the period containing that time or one of its two neighbours. Enrolment accepts SHA1 (the default), SHA256 and SHA512 in any letter case, periods of 30 to 300 seconds and 4 to 8 digits (default 6), and requires a code of the current period or of one of the two preceding ones. Codes of tokens of other types, of wrong length, or of other secrets are rejected.',
 ['inputs','configurations'],'all secrets, hashes, digits, periods, times (including period boundaries and far past or future), and codes of neighbouring periods',
 'tests generate codes with the same internal function they check, at one time, for one or two parameter sets; window edges and independence from that function are not settled',
 ['mfa_token.go'],[('window of three periods','mfa_token.go ValidateCodeWithTime'),('generateMfaCode','mfa_token.go'),('enrolment','mfa_token.go NewMfaToken')],
 ['results of NewMfaToken, AddMfaToken, ValidateCode, ValidateCodeWithTime'])
p('C09','WebAuthn login needs a genuine, fresh assertion by a registered token',
 'A login without password but with a WebAuthn assertion succeeds exactly when the assertion names a registered, not disabled U2F token of that user, and carries client data of type webauthn.get, not cross-origin, with exactly the challenge that was issued, authenticator data with the relying party hash of that token and the user-present bit, and a valid ES256 signature by that token\'s key over exactly this authenticator data and client data. Changing any one of these, or any byte of the signed data, makes it fail with response code 400; no other property of an assertion (counter, other flag bits, extension data) matters. This holds for every number of tokens per user and after reload.',
 ['inputs','histories'],'all assertions obtained from valid ones by any combination of deviations, for users with several tokens, including deleted and disabled tokens and tokens of other users',
 'tests replay one recorded assertion; tampered, replayed, cross-token and cross-user assertions are a product space no recorded sample covers',
 ['mfa_token.go','webauthn.go',us,db],[('checks in order','mfa_token.go WebAuthnRequest'),('token selection and challenge','user.go VerifyWebAuthnRequest')],
 ['AuthenticateUser with WebAuthn request'])
p('C10','Everything acknowledged is in the file, and a reload restores it all',
 'When a modifying operation, Save or creation of the database returns success, the database file holds the complete current state: loading it yields a database with the same users, attributes, passwords, keys, tokens, policy and revision, that answers every request as the original does. Copy writes the same complete state to the given path, leaves the path and the file of the database itself unchanged, and later changes of either do not affect the other. Text the file format cannot represent is refused rather than altered.',
 ['histories','inputs'],'all histories of operations with loads in between, all attribute values including non-ASCII and special characters, home-relative and symlinked paths',
 'tests load files they prepared but never compare the complete memory with the complete reloaded state after operations, nor the file a copy produced',
 [db,us,'internal/utils/file.go'],[('commit after each mutation','database.go commit'),('json fields','all structs'),('Copy swaps the path','database.go Copy')],
 ['file content after each operation','NewDatabase on it'])
p('C11','A failed operation changes nothing',
 'When an operation returns an error - for invalid input, an unknown or mismatching user, a duplicate, an unknown id, a policy violation, or because the file could not be written - the database in memory is exactly as before the call, and so is the file. In particular nothing of the failed change becomes visible later, through subsequent operations, saves or reloads; credentials that were valid before remain valid and new ones are not. After the cause is removed the same request succeeds.',
 ['fault_sequences','histories','inputs'],'every operation, every kind of input error, and every single failure of every file-system call the operation performs (including short writes and full disk), in any state',
 'tests point the database at a directory and check the error text; they never check that memory and file are unchanged nor inject failures in the middle of a write',
 [db,us,'internal/utils/file.go'],[('restore on failed commit','database.go, user.go backup'),('atomic replacement','internal/utils/file.go WriteFileBytes')],
 ['complete state before and after','file before and after'])
p('C12','A crash never damages the database file',
 'If the process or the machine stops at any point during the creation, saving or copying of a database, the file at the target path afterwards holds either the complete previous content or the complete new content (or does not exist, if it did not before), and loads. Once an operation has returned success, its effect survives any later crash. Leftovers of interrupted writes never disturb later loads or saves.',
 ['crash_points'],'every crash point between any two file-system calls of every operation, with every subset of unsynchronised effects lost (power failure) or none (process kill), for new, existing and symlinked targets',
 'no test interrupts a write; ordering and durability mistakes are invisible unless a crash is placed between two particular system calls',
 [db,'internal/utils/file.go'],[('write temporary file, sync, rename, sync directory','internal/utils/file.go WriteFileBytes')],
 ['sequence of file-system calls of each operation','content of the file after each of them'])
p('C13','Concurrent use is linearizable and free of races and deadlocks',
 'When several goroutines use one database, every operation takes effect at one instant between its call and its return: the results are those of some sequential order of the same operations respecting real time, no acknowledged change is lost, no uniqueness guarantee is violated, and the file finally holds the resulting state. No operation blocks forever or crashes, and there is no data race.',
 ['schedules'],'all interleavings of any number of goroutines calling any operations of one database (as far as explored: all orders of up to 4 goroutines in the design model; recorded executions with injected delays in the code)',
 'the tests are single-threaded; lost updates, check-then-act gaps and racy reads need particular interleavings',
 [db,'mfa_token.go','random.go'],[('one RWMutex around each operation','database.go'),('no writes under the read lock','mfa_token.go WebAuthnRequest, database.go')],
 ['call and return events with results','final memory and file','race detector'],[('mu','database lock','database.go Database')])
p('C14','Length policy is enforced and published as configured',
 'A username at creation and a password at creation or change are accepted only if their lengths in bytes are within the inclusive limits of the policy of the database, which are those of its file, with 3 to 50 for usernames, 8 to 128 for passwords and 10 kept versions where the file sets none; input within the limits is not refused for its length. The published summaries and patterns state exactly the configured limits and character requirements for every policy. The policy is never changed by any operation or reload.',
 ['configurations','inputs'],'all policies (limits and flags) and lengths around the limits, including multi-byte characters and padding',
 'tests check one too-short password and the texts for the default policy; other limits, boundaries, byte/character differences and flag combinations are not covered',
 [db],[('checkPolicyCompliance','database.go'),('enforceDefaultPolicy','database.go'),('summaries and regex','database.go GetUsernamePolicySummary etc.')],
 ['results of AddUser and ChangeUserPassword','Get*Policy* texts'])
p('C15','A file is loaded if and only if it is valid, and rejected untouched',
 'Loading a database file succeeds exactly when it is a JSON document of the right shape, every user has a 36-character id, a username and at least one password, no list has empty (null) entries, ids are unique, usernames and emails are unique regardless of letter case, and API key prefixes are unique. Otherwise it returns an error, never panics, and leaves the file byte for byte as it was. A loaded database has all users of the file, with missing policy limits filled in, and every operation on it works without panic.',
 ['inputs'],'all JSON documents derived from valid databases by combinations of field changes, nulls, duplicates, truncations and type changes',
 'tests load a handful of broken fixtures (one per error message), each with a single defect; combinations, nulls, truncations and the untouched-file guarantee are not covered',
 [db,us],[('validation in NewDatabase','database.go'),('User.Valid','user.go')],['result of NewDatabase','bytes of the file','loaded Database.Users'])
p('C16','Secrets never reach the disk in clear, and the file is private',
 'After any history, no file the library wrote contains a password or an API key in clear (nor an encoding, case variant or long fragment of one): stored passwords and API keys are bcrypt hashes of cost 10 or more, individually salted, also for equal passwords. The database file and its copies are created accessible to their owner only, and replacing an existing file keeps its permissions. Neither error messages nor the data returned for users or listings contain passwords or API keys in clear.',
 ['histories','inputs'],'all histories, all passwords (including ones that are also used elsewhere in requests) and file creation under any umask',
 'tests never scan the file; a field added to a struct or a log/err message with the password would pass all of them',
 ['password.go','api_key.go',db,'internal/utils/file.go'],[('bcrypt hash','password.go hash'),('hash stored as payload','database.go AddAPIKey'),('0600','database.go commit')],
 ['all files below the database directory','error texts','returned bundles','file modes'])
p('C17','Revision and modification times only move forward, and tell changes apart',
 'Every successful modifying operation, Save and Copy increases the revision of the database by one and sets its modification time to the time of the operation; every other call, and every failed one, leaves both unchanged, and a reload restores those last saved. The revision of a user increases, and its modification time moves to the time of the operation, exactly when that user is modified; creation times never change.',
 ['histories'],'all histories of operations, failures and reloads',
 'no test looks at revisions or times across operations',
 [db,us],[('commit','database.go'),('Revise','user.go')],['Database.Revision, LastModified','User.Revision, LastModified, Created'])
p('C18','Identity claims say exactly what was registered',
 'Identifying a user, by username or any email in any letter case, reports the username and the first email address as registered, the full name as "Last, First" parsed from "First Last" or "Last, First", and the roles as registered, trimmed, without duplicates, in order, with everything before the first slash as organization. Role, name and email syntax is accepted exactly as specified (email by the HTML5 address grammar, non-blank roles, two-part names), anything else refuses the user. Adding an email, role or name a user already has changes nothing, and role membership tests agree with the reported roles.',
 ['inputs','histories'],'all strings for names, roles and emails over an alphabet that exercises the grammar, and sequences of additions',
 'tests use a dozen examples; the grammars have unbounded input spaces with separators and spaces in odd places',
 [us,'role.go','name.go','email.go',db],[('NewRole','role.go'),('ParseName','name.go'),('NewEmailAddress','email.go'),('IdentifyUser','database.go')],
 ['IdentifyUser','GetMetadata, GetRolesClaim, HasRole, GetMailClaim, GetNameClaim'])
p('C19','Provisioning codes are valid otpauth URIs that decode to the request',
 'A provisioning code is built exactly for a label, a secret of at least 6 bytes, type totp, or hotp with a counter of at least 1, a known hash or none, 4 to 8 digits and a period of 30 to 180 seconds (or unset); otherwise building fails and yields no code. The resulting URI, also in its base64 form, decodes by the rules of form encoding (where + is a space) to exactly the requested type, label, secret (base32), issuer, algorithm, digits, counter and period, for every character in label, issuer and secret. An authenticator app using it produces the codes that a token enrolled with the same parameters accepts.',
 ['inputs'],'all combinations of parameters at and around their limits, and all characters in label, issuer and secret',
 'tests compare a few fixed URIs; special characters, limit values and agreement with token validation are not covered',
 ['pkg/qr/qr.go','mfa_token.go'],[('validate, Build','pkg/qr/qr.go')],['Code.Build, Get, GetEncoded'])
p('C20','Malformed requests yield errors, never panics or partial effects',
 'For every content of a request - arbitrary or missing JSON values in WebAuthn registrations and assertions, arbitrary bytes as keys, codes, names, passwords or API keys - every operation returns normally, with an error unless the request is well-formed. A U2F registration is accepted exactly when all its required parts are present with the right types and supported values and it carries a usable P-256 public key. A refused request leaves the database unchanged and usable.',
 ['inputs'],'all JSON type substitutions at every position of registrations and assertions, byte-level mutations of keys, random strings for all other fields',
 'tests cover one malformed value per error message; type confusion and byte-level damage in nested documents are an open-ended input space',
 ['mfa_token.go','webauthn.go','public_key.go',db],[('checked decoding','mfa_token.go NewMfaToken, WebAuthnRequest'),('parse','public_key.go')],
 ['results, panics, state afterwards'])
p('C21','Reading changes nothing and listings are exact',
 'Authenticating, identifying, looking up keys, listing users, keys and tokens, and reading users, counts, paths and policies never change the database in memory or its file, whatever their outcome. The list of users contains each user exactly once, in the order of creation, with its current id, username, first email, name, revision and times, and no secrets; the user count equals the number of users. A list or a user already handed out is not affected by later changes.',
 ['histories','inputs'],'all reading operations with all inputs in all reachable states',
 'tests never compare state before and after reads',
 [db,us],[('read lock','database.go'),('GetMetadata','user.go')],['complete state and file before and after','GetUsers, GetUserCount, GetPath'])
p('C22','Unknown users cannot be told from known ones',
 'A login attempt with a password for a name that does not exist computes as many password hashes, at the same cost, as one with a wrong password for a user with one valid password, and yields the same response code; this holds for every password. Identifying an unknown name returns no error and a placeholder identity (nobody) with only the password challenge, and discloses no attribute of any user.',
 ['inputs','histories'],'all names and passwords, including blank ones, in all reachable states',
 'tests check only that an error is returned; the amount of hashing work is not observed',
 [db,'password.go'],[('dummy hash','database.go AuthenticateUser'),('nobody','database.go IdentifyUser')],
 ['number and cost of bcrypt computations','response code','IdentifyUser for unknown names'])
p('C23','A public key means the same in every encoding',
 'The same RSA key given in PEM or OpenSSH form, with any comment or surrounding white space, is stored with the same type, SHA256 (with or without this label) and MD5 fingerprints, OpenSSH form and equivalent PEM payload, all agreeing with those computed from the key itself; a PGP key gets its key id, fingerprint, algorithm and creation time from the key. Distinct keys never get the same fingerprint. Keys of unsupported kinds and damaged keys are refused.',
 ['inputs'],'all RSA key sizes and PGP key kinds generated, in all encodings, with comments and white space, and with damage at any position',
 'tests use one generated key per form and a fixed PGP key, and never compare forms',
 ['public_key.go'],[('parsePublicKeyRSA, parsePublicKeyOpenSSH, parsePublicKeyPGP','public_key.go')],['fields of the stored key'])
p('C24','Generated identifiers and keys are well-formed and never repeat',
 'Every user gets a new 36-character UUID, every API key a new secret of 72 to 95 letters and digits whose first 24 characters are its prefix, and every API key, RSA key and MFA token a new 40-character id of letters and digits. They never repeat - within a process, across processes started at the same time, or after a reload - and use the whole alphabet and length range. Random strings have exactly the requested length, or one within the requested range, for all arguments.',
 ['histories','schedules','inputs'],'all sequences and concurrent executions of operations that generate values, in any number of processes',
 'tests check one length; repetition needs many samples, several goroutines or several processes',
 ['random.go','uuid.go','api_key.go',db],[('crypto/rand','random.go'),('prefix check','database.go AddAPIKey')],['generated values'])
p('C25','User objects keep their promises outside a database as well',
 'A user object used on its own does what its operations say, after any of them: setting a password makes it the only accepted one and keeps the asked-for number of former ones (9 unless positive), latest first and disabled; a password change needs one in force; an address, name or role already there is not added again, others go to the end, and the first address and name remain those of the claims and the metadata; an equal public key, or a token of equal secret or comment, is refused; deletion removes the entry of that id only. Verification and lookup accept exactly what is in force; flags and challenges are those of the tokens enabled, claims those of the lists. A refused operation changes nothing (of several roles, those before the refused one may stay), every change raises the revision and its time, and reading changes nothing. Creation with roles yields a valid user of revision 0, or an error.',
 ['histories','inputs'],'all sequences of operations on a user object, with entries disabled or expired in between',
 'tests call each operation once or twice on one user and check an error or a length; sequences, former passwords, disabled entries and the agreement of claims with lists are not covered',
 [us,'name.go','role.go','email.go','password.go'],[('the operations of User','user.go'),('marks','password.go Disable, api_key.go Disable, mfa_token.go Disable')],
 ['exported fields of User','results of its methods'],[('User','lists of passwords, addresses, names, roles, keys and tokens','user.go User')])
p('C26','A refusal is recognisable, and names a reason that applies',
 'The error of a refused operation is recognisable (errors.Is) as the one of its operation - adding, deleting or getting users, keys or tokens, authentication, password change, lookup, commit, or opening a database - and its text names a reason, which applies: a reason that does not hold of the request and the state is never given (such as an unknown user for a known one, a policy violation for a compliant password, a duplicate for a value not in use, or a part of a registration that is in order). Which of several applying reasons is named is left open. An error made from one of the library\'s sentinels and arguments is that sentinel for errors.Is, also when wrapped, is no other sentinel, has the arguments in its text in order, and is no error at all when its cause is nil.',
 ['histories','inputs'],'all refused requests in all reachable states, documents with any combination of defects, and all sentinels and arguments',
 'tests compare error texts for one input each; that a reason is given only when it holds needs the state and all other reasons to vary',
 [db,us,'mfa_token.go','public_key.go','pkg/errors/errors.go'],[('sentinels','pkg/errors'),('WithArgs, enhancedError','pkg/errors/errors.go'),('validateUserIdentity','database.go')],
 ['errors.Is and text of the errors'])
p('C27','Passwords, bundles, cards and new objects are what was asked for',
 'A password made with options is refused, and none returned, exactly when its text is blank, its algorithm is not bcrypt, or its cost is above 31; otherwise it is in force, made now, with the purpose and algorithm asked for, and its hash has the cost asked for (10 where none or less than 8 is) and matches exactly that text; disabling it marks it disabled and expired at that time and changes nothing else. A credit card gets the first issuer of the catalogue having the text as its name or alias, as written there or in lower case, and the first association having it as its name; otherwise it is refused and the card stays as it was. The default catalogue has the five associations with the lengths of their codes. Bundles give back exactly what was added, in order, and its number. New requests and other objects are empty and independent; a new user has an id, its name and the time of its making, and nothing else, and a registration that user and time, not approved.',
 ['inputs'],'all texts, algorithms and costs of passwords; all catalogues and names; any number of entries',
 'tests make one object each; the decisions over all options, catalogues and texts are not covered',
 ['password.go','credit_card.go','credit_card_association.go','api_key.go','public_key.go','mfa_token.go',us,'registration.go','pkg/requests/requests.go'],[('NewPasswordWithOptions','password.go'),('AddIssuer, AddAssociation','credit_card.go'),('bundles','api_key.go, public_key.go, mfa_token.go, user.go')],
 ['exported fields of the objects','results of their methods'])
with open('/verif/properties.jsonl','w') as f:
    for x in P: f.write(json.dumps(x)+'\n')
import jsonschema
s=json.load(open('/root/.vp/PROPERTIES.schema.json'))
for x in P: jsonschema.validate(x,s); assert len(x['title'])<=80,x['id']
print(len(P))
