// The user pool is the check's (globalThis.__cognito).
export class AuthenticationDetails {
  constructor(d) {
    this.d = d;
  }
}
export class CognitoUserPool {
  constructor(d) {
    this.d = d;
    if (!d.UserPoolId || !d.ClientId) throw new Error("Both UserPoolId and ClientId are required.");
  }
}
const session = (payload) => ({ getAccessToken: () => ({ payload, getJwtToken: () => "x" }), getIdToken: () => ({ payload }), isValid: () => true });
export class CognitoUser {
  constructor({ Username, Pool }) {
    if (!Username || !Pool) throw new Error("Username and Pool information are required.");
    this.u = Username;
    this.pool = Pool;
  }
  authenticateUser(details, cb) {
    const a = globalThis.__cognito.authenticate(this.pool.d, this.u, details.d.Username, details.d.Password);
    if (a.throws) throw a.throws;
    setImmediate(() => {
      if (a.failure) cb.onFailure(a.failure);
      else if (a.challenge) {
        this.challenge = a.challenge;
        // without a handler for the challenge the library fails
        if (!cb.newPasswordRequired) cb.onFailure(new Error("newPasswordRequired"));
        else cb.newPasswordRequired({ email_verified: "true" }, []);
      } else cb.onSuccess(session(a.payload));
    });
  }
  completeNewPasswordChallenge(password, attributes, cb) {
    const a = globalThis.__cognito.newPassword(this.u, password, this.challenge);
    setImmediate(() => (a.failure ? cb.onFailure(a.failure) : cb.onSuccess(session(a.payload))));
  }
}
export default { AuthenticationDetails, CognitoUserPool, CognitoUser };
